//! Hash-consed bit-vector expressions with simplification.
//!
//! Byte-sized inputs carry their set of possible values; every expression over one such input
//! is tabulated, so that predicates over one input become set membership. Sums that cannot
//! overflow are kept as linear forms over the integers, which makes decimal parsing and
//! decimal printing cancel exactly. All rewrites preserve the value for every assignment that
//! respects the value sets of the inputs.
use std::collections::HashMap;
use std::rc::Rc;

use crate::ir::{mask, sext};

pub type E = u32;
pub type SetId = u32;
pub type Set = [u64; 4];

pub fn set_has(s: &Set, v: u8) -> bool {
    s[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn set_and(a: &Set, b: &Set) -> Set {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn set_minus(a: &Set, b: &Set) -> Set {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn set_empty(a: &Set) -> bool {
    *a == [0; 4]
}
pub fn set_count(a: &Set) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn set_rank(s: &Set, v: u8) -> usize {
    let w = (v >> 6) as usize;
    let mut r = 0;
    for i in 0..w {
        r += s[i].count_ones();
    }
    r += (s[w] & ((1u64 << (v & 63)) - 1)).count_ones();
    r as usize
}
pub fn set_iter(s: &Set) -> impl Iterator<Item = u8> + '_ {
    (0..=255u8).filter(move |v| set_has(s, *v))
}
pub fn set_insert(s: &mut Set, v: u8) {
    s[(v >> 6) as usize] |= 1 << (v & 63)
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,    // k = index, a = set id or range id; w == 8: set
    Member, // a = var index, b = set, c = dset
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a high, b low
    Eq,
    Ult,
    Slt,
    Ite,
    Lookup, // k = table id, a = index
    UMulO,  // unsigned multiplication overflows
    Diff,   // a - b, at least k on every path that uses it
}

pub type Facts = HashMap<Vec<(E, i128)>, i128>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub struct Meta {
    pub supp: u128,
    pub lo: u128,
    pub hi: u128,
    pub dset: SetId, // valid when tab is some
    pub var: u32,
    pub tab: Option<Rc<Vec<u128>>>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Lin {
    pub k: i128,
    pub t: Vec<(E, i128)>,
}

pub struct Cx {
    pub nodes: Vec<Node>,
    pub meta: Vec<Meta>,
    map: HashMap<Node, E>,
    pub sets: Vec<Set>,
    set_map: HashMap<Set, SetId>,
    pub ranges: Vec<(u128, u128)>,
    range_map: HashMap<(u128, u128), u32>,
    pub tables: Vec<Rc<Vec<u128>>>,
    table_map: HashMap<Rc<Vec<u128>>, u32>,
    lins: HashMap<E, Rc<Lin>>,
    /// Lower bounds of sums of terms that hold on the current path.
    pub facts: Rc<Facts>,
    /// Inputs that have one value on the current path.
    pub pinned: Rc<HashMap<u32, u128>>,
}

const LIM: i128 = 1 << 120;

fn bits_of(v: u128) -> u32 {
    128 - v.leading_zeros()
}

pub fn apply(op: Op, w: u32, wa: u32, wb: u32, k: u128, a: u128, b: u128, c: u128) -> u128 {
    match op {
        Op::Add => mask(a.wrapping_add(b), w),
        Op::Sub | Op::Diff => mask(a.wrapping_sub(b), w),
        Op::Mul => mask(a.wrapping_mul(b), w),
        Op::UDiv => {
            if b == 0 {
                mask(u128::MAX, w)
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                mask(if x < 0 { 1 } else { u128::MAX }, w)
            } else {
                mask(x.wrapping_div(y) as u128, w)
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                mask(x.wrapping_rem(y) as u128, w)
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                mask(a << b, w)
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1);
            mask((sext(a, w) >> s) as u128, w)
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Not => mask(!a, w),
        Op::ZExt => a,
        Op::SExt => mask(sext(a, wa) as u128, w),
        Op::Extract => mask(a >> k, w),
        Op::Concat => (a << wb) | b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wb)) as u128,
        Op::Ite => {
            if a == 1 {
                b
            } else {
                c
            }
        }
        Op::UMulO => match a.checked_mul(b) {
            None => 1,
            Some(p) => (mask(p, wa) != p) as u128,
        },
        _ => unreachable!(),
    }
}

impl Cx {
    pub fn new() -> Cx {
        let mut c = Cx {
            nodes: vec![],
            meta: vec![],
            map: HashMap::new(),
            sets: vec![],
            set_map: HashMap::new(),
            ranges: vec![],
            range_map: HashMap::new(),
            tables: vec![],
            table_map: HashMap::new(),
            lins: HashMap::new(), facts: Rc::new(HashMap::new()), pinned: Rc::new(HashMap::new()),
        };
        // node 0 is never a valid symbolic byte marker
        c.cst(0, 1);
        c
    }
    pub fn set(&mut self, s: Set) -> SetId {
        if let Some(&i) = self.set_map.get(&s) {
            return i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(s);
        self.set_map.insert(s, i);
        i
    }
    pub fn table(&mut self, t: Vec<u128>) -> u32 {
        let t = Rc::new(t);
        if let Some(&i) = self.table_map.get(&t) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.table_map.insert(t, i);
        i
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = mask(v, w);
        self.raw(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v }, Meta { supp: 0, lo: v, hi: v, dset: 0, var: 0, tab: None })
    }
    pub fn var8(&mut self, idx: u32, set: SetId) -> E {
        let n = Node { op: Op::Var, w: 8, a: set, b: 0, c: 0, k: idx as u128 };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let s = self.sets[set as usize];
        let tab: Vec<u128> = set_iter(&s).map(|v| v as u128).collect();
        if tab.len() == 1 {
            return self.cst(tab[0], 8);
        }
        let m = Meta { supp: 1 << idx, lo: tab[0], hi: *tab.last().unwrap(), dset: set, var: idx, tab: Some(Rc::new(tab)) };
        self.raw(n, m)
    }
    pub fn var_range(&mut self, idx: u32, w: u32, lo: u128, hi: u128) -> E {
        if lo == hi {
            return self.cst(lo, w);
        }
        let r = match self.range_map.get(&(lo, hi)) {
            Some(&r) => r,
            None => {
                let r = self.ranges.len() as u32;
                self.ranges.push((lo, hi));
                self.range_map.insert((lo, hi), r);
                r
            }
        };
        assert!(w != 8);
        self.raw(Node { op: Op::Var, w, a: r, b: 0, c: 0, k: idx as u128 }, Meta { supp: 1 << idx, lo, hi, dset: 0, var: idx, tab: None })
    }
    fn raw(&mut self, n: Node, m: Meta) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.meta.push(m);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn lo(&self, e: E) -> u128 {
        self.meta[e as usize].lo
    }
    pub fn hi(&self, e: E) -> u128 {
        self.meta[e as usize].hi
    }
    pub fn supp(&self, e: E) -> u128 {
        self.meta[e as usize].supp
    }
    pub fn member(&mut self, var: u32, set: &Set, dset: SetId) -> E {
        let d = self.sets[dset as usize];
        let s = set_and(set, &d);
        if set_empty(&s) {
            return self.cst(0, 1);
        }
        if s == d {
            return self.cst(1, 1);
        }
        let sid = self.set(s);
        let n = Node { op: Op::Member, w: 1, a: var, b: sid, c: dset, k: 0 };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let tab: Vec<u128> = set_iter(&d).map(|v| set_has(&s, v) as u128).collect();
        self.raw(n, Meta { supp: 1 << var, lo: 0, hi: 1, dset, var, tab: Some(Rc::new(tab)) })
    }
    /// Value of a tabulated or constant node when its only input is v (v must be in the node's dset).
    fn tget(&self, e: E, v: u8) -> u128 {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            return n.k;
        }
        let m = &self.meta[e as usize];
        let t = m.tab.as_ref().unwrap();
        t[set_rank(&self.sets[m.dset as usize], v)]
    }
    fn arity(op: Op) -> usize {
        match op {
            Op::Const | Op::Var | Op::Member => 0,
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::Lookup => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
    pub fn kids(&self, e: E) -> Vec<E> {
        let n = &self.nodes[e as usize];
        match Self::arity(n.op) {
            0 => vec![],
            1 => vec![n.a],
            2 => vec![n.a, n.b],
            _ => vec![n.a, n.b, n.c],
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        let n = Node { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let kids: Vec<E> = match Self::arity(op) {
            1 => vec![a],
            2 => vec![a, b],
            _ => vec![a, b, c],
        };
        let mut supp = 0;
        let mut all_tab = true;
        let mut dset: Option<Set> = None;
        let mut var = 0;
        for &x in &kids {
            let m = &self.meta[x as usize];
            supp |= m.supp;
            if m.supp != 0 {
                if m.tab.is_some() {
                    let s = self.sets[m.dset as usize];
                    dset = Some(match dset {
                        None => s,
                        Some(d) => set_and(&d, &s),
                    });
                    var = m.var;
                } else {
                    all_tab = false;
                }
            }
        }
        let (wa, wb) = (self.w(a), if kids.len() > 1 { self.w(b) } else { 0 });
        if supp == 0 || (all_tab && supp.count_ones() == 1) {
            let ev = |cx: &Cx, av: u128, bv: u128, cv: u128| -> u128 {
                if op == Op::Lookup {
                    let t = &cx.tables[k as usize];
                    t.get(av as usize).copied().unwrap_or(0)
                } else {
                    apply(op, w, wa, wb, k, av, bv, cv)
                }
            };
            if supp == 0 {
                let g = |cx: &Cx, i: usize| kids.get(i).map(|&x| cx.nodes[x as usize].k).unwrap_or(0);
                let v = ev(self, g(self, 0), g(self, 1), g(self, 2));
                return self.cst(v, w);
            }
            let d = dset.unwrap();
            if !set_empty(&d) {
                let mut tab = Vec::with_capacity(set_count(&d) as usize);
                for v in set_iter(&d) {
                    let g = |i: usize| kids.get(i).map(|&x| self.tget(x, v)).unwrap_or(0);
                    tab.push(ev(self, g(0), g(1), g(2)));
                }
                if tab.iter().all(|x| *x == tab[0]) {
                    return self.cst(tab[0], w);
                }
                let dset = self.set(d);
                if w == 1 {
                    let mut s: Set = [0; 4];
                    for (i, v) in set_iter(&d).enumerate() {
                        if tab[i] == 1 {
                            set_insert(&mut s, v);
                        }
                    }
                    return self.member(var, &s, dset);
                }
                // identity on the input
                if w == 8 && set_iter(&d).zip(tab.iter()).all(|(v, t)| v as u128 == *t) {
                    return self.var8(var, dset);
                }
                let lo = *tab.iter().min().unwrap();
                let hi = *tab.iter().max().unwrap();
                return self.raw(n, Meta { supp, lo, hi, dset, var, tab: Some(Rc::new(tab)) });
            }
        }
        let (lo, hi) = self.range_of(op, w, a, b, c, k);
        if lo == hi {
            return self.cst(lo, w);
        }
        self.raw(n, Meta { supp, lo, hi, dset: 0, var: 0, tab: None })
    }
    fn range_of(&self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> (u128, u128) {
        let full = (0, mask(u128::MAX, w));
        let (al, ah) = (self.lo(a), self.hi(a));
        let (bl, bh) = if Self::arity(op) >= 2 { (self.lo(b), self.hi(b)) } else { (0, 0) };
        let m = full.1;
        match op {
            Op::Add => match ah.checked_add(bh) {
                Some(h) if h <= m => (al + bl, h),
                _ => full,
            },
            Op::Sub => {
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            Op::Mul => match ah.checked_mul(bh) {
                Some(h) if h <= m => (al * bl, h),
                _ => full,
            },
            Op::UDiv => {
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    full
                }
            }
            Op::URem => {
                if bl > 0 {
                    (0, ah.min(bh - 1))
                } else {
                    (0, ah)
                }
            }
            Op::And => (0, ah.min(bh)),
            Op::Or | Op::Xor => {
                let n = bits_of(ah | bh);
                (if op == Op::Or { al.max(bl) } else { 0 }, mask(u128::MAX, n.max(1)).min(m))
            }
            Op::Not => (m - ah, m - al),
            Op::ZExt => (al, ah),
            Op::SExt => {
                let wa = self.w(a);
                if ah >> (wa - 1) == 0 {
                    (al, ah)
                } else if al >> (wa - 1) == 1 {
                    (mask(sext(al, wa) as u128, w), mask(sext(ah, wa) as u128, w))
                } else {
                    full
                }
            }
            Op::Extract => {
                let (l, h) = (al >> k, ah >> k);
                if h <= m {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Concat => {
                let wb = self.w(b);
                ((al << wb) | bl, (ah << wb) | bh)
            }
            Op::LShr => (if bh < w as u128 { al >> bh } else { 0 }, if bl < w as u128 { ah >> bl } else { 0 }),
            Op::Ite => {
                let (cl, ch) = (self.lo(c), self.hi(c));
                (bl.min(cl), bh.max(ch))
            }
            Op::Lookup => {
                let t = &self.tables[k as usize];
                let (i, j) = (al.min(t.len() as u128) as usize, (ah + 1).min(t.len() as u128) as usize);
                let z = if ah as usize >= t.len() { Some(0) } else { None };
                let lo = t[i..j].iter().copied().chain(z).min().unwrap_or(0);
                let hi = t[i..j].iter().copied().chain(z).max().unwrap_or(0);
                (lo, hi)
            }
            _ => full,
        }
    }

    // ---- linear forms -------------------------------------------------------------------
    fn lin_range(&self, l: &Lin) -> Option<(i128, i128)> {
        let (mut lo, mut hi) = (l.k, l.k);
        for (e, c) in &l.t {
            let (el, eh) = (self.lo(*e), self.hi(*e));
            if eh >= LIM as u128 {
                return None;
            }
            let (x, y) = (c.checked_mul(el as i128)?, c.checked_mul(eh as i128)?);
            lo = lo.checked_add(x.min(y))?;
            hi = hi.checked_add(x.max(y))?;
            if lo.abs() > LIM || hi.abs() > LIM {
                return None;
            }
        }
        Some((lo, hi))
    }
    fn lin_add(a: &Lin, b: &Lin, sb: i128) -> Option<Lin> {
        let mut t: Vec<(E, i128)> = Vec::with_capacity(a.t.len() + b.t.len());
        let (mut i, mut j) = (0, 0);
        while i < a.t.len() || j < b.t.len() {
            if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
                t.push(a.t[i]);
                i += 1;
            } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
                t.push((b.t[j].0, b.t[j].1.checked_mul(sb)?));
                j += 1;
            } else {
                let c = a.t[i].1.checked_add(b.t[j].1.checked_mul(sb)?)?;
                if c != 0 {
                    t.push((a.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Lin { k: a.k.checked_add(b.k.checked_mul(sb)?)?, t })
    }
    fn lin_scale(a: &Lin, s: i128) -> Option<Lin> {
        let mut t = Vec::with_capacity(a.t.len());
        for (e, c) in &a.t {
            t.push((*e, c.checked_mul(s)?));
        }
        Some(Lin { k: a.k.checked_mul(s)?, t })
    }
    pub fn lin(&mut self, e: E) -> Rc<Lin> {
        if let Some(l) = self.lins.get(&e) {
            return l.clone();
        }
        let n = self.nodes[e as usize];
        let r: Option<Lin> = match n.op {
            Op::Const => {
                if n.k < LIM as u128 {
                    Some(Lin { k: n.k as i128, t: vec![] })
                } else {
                    None
                }
            }
            Op::ZExt => Some((*self.lin(n.a)).clone()),
            Op::Extract if n.k == 0 && bits_of(self.hi(n.a)) <= n.w => Some((*self.lin(n.a)).clone()),
            Op::Add | Op::Sub => {
                let (a, b) = (self.lin(n.a), self.lin(n.b));
                Self::lin_add(&a, &b, if n.op == Op::Add { 1 } else { -1 })
            }
            Op::Mul => {
                if let Some(k) = self.is_const(n.b) {
                    let a = self.lin(n.a);
                    if k < LIM as u128 {
                        Self::lin_scale(&a, k as i128)
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                let (a, b) = (self.lin(n.a), self.lin(n.b));
                if wb < 100 {
                    Self::lin_scale(&a, 1 << wb).and_then(|a| Self::lin_add(&a, &b, 1))
                } else {
                    None
                }
            }
            _ => None,
        };
        // a sum that wraps around for all values alike
        let r = r.map(|mut l| {
            if let (Op::Add | Op::Sub, true, Some((lo, hi))) = (n.op, n.w < 100, self.lin_range(&l)) {
                let f = lo.div_euclid(1i128 << n.w);
                if f != 0 && f == hi.div_euclid(1i128 << n.w) {
                    l.k -= f << n.w;
                }
            }
            l
        });
        let ok = match &r {
            None => false,
            Some(l) => match self.lin_range(l) {
                None => false,
                Some((lo, hi)) => lo >= 0 && (n.w >= 121 || hi < (1i128 << n.w)),
            },
        };
        let l = Rc::new(if ok { r.unwrap() } else { Lin { k: 0, t: vec![(e, 1)] } });
        self.lins.insert(e, l.clone());
        l
    }
    /// The terms divided by the gcd of their coefficients.
    fn norm(t: &[(E, i128)]) -> (Vec<(E, i128)>, i128) {
        let g = t.iter().fold(0u128, |g, (_, c)| gcd(g, c.unsigned_abs())).max(1) as i128;
        (t.iter().map(|(e, c)| (*e, c / g)).collect(), g)
    }
    /// A lower bound of the form from the facts of the path.
    fn fact_bound(&self, l: &Lin) -> Option<i128> {
        if self.facts.is_empty() || l.t.is_empty() {
            return None;
        }
        let (t, g) = Self::norm(&l.t);
        let b = self.facts.get(&t)?;
        g.checked_mul(*b)?.checked_add(l.k)
    }
    /// a - b >= m on the path from now on
    pub fn fact(&mut self, facts: &mut Rc<Facts>, a: E, b: E, m: i128) {
        let (la, lb) = (self.lin(a), self.lin(b));
        let Some(l) = Self::lin_add(&la, &lb, -1) else { return };
        if l.t.is_empty() || l.t.len() > 24 {
            return;
        }
        let (t, g) = Self::norm(&l.t);
        let Some(d) = m.checked_sub(l.k) else { return };
        // ceiling of d / g
        let v = d.div_euclid(g) + (d.rem_euclid(g) != 0) as i128;
        let f = Rc::make_mut(facts);
        let e = f.entry(t).or_insert(v);
        *e = (*e).max(v);
    }
    /// a - b when the path shows that it is not negative
    fn try_diff(&mut self, a: E, b: E, w: u32) -> Option<E> {
        if self.facts.is_empty() {
            return None;
        }
        let (la, lb) = (self.lin(a), self.lin(b));
        let l = Self::lin_add(&la, &lb, -1)?;
        let (_, hi) = self.lin_range(&l)?;
        let lo = self.fact_bound(&l)?;
        if lo < 0 || hi < lo || (w < 121 && hi >= (1i128 << w)) {
            return None;
        }
        let (t, g) = if l.k == 0 { Self::norm(&l.t) } else { (l.t.clone(), 1) };
        let (mut p, mut n) = (Lin { k: l.k.max(0), t: vec![] }, Lin { k: (-l.k).max(0), t: vec![] });
        for (e, c) in t {
            if c > 0 {
                p.t.push((e, c));
            } else {
                n.t.push((e, -c));
            }
        }
        let (_, h1) = self.lin_range(&p)?;
        let (_, h2) = self.lin_range(&n)?;
        let nw = bits_of(h1.max(h2).max(1) as u128);
        if nw > w {
            return None;
        }
        let x = self.from_lin(&p, nw);
        let y = self.from_lin(&n, nw);
        let d = self.mk(Op::Diff, nw, x, y, 0, (lo / g) as u128);
        if self.nodes[d as usize].op == Op::Diff {
            let m = &mut self.meta[d as usize];
            m.lo = (lo / g) as u128;
            m.hi = m.hi.min((hi / g) as u128);
        }
        let d = self.resize(d, w);
        let k = self.cst(g as u128, w);
        Some(self.mul(d, k))
    }
    /// Adds c times the value of e, modulo 2^w, to the sum of atoms.
    fn modlin(&mut self, e: E, c: u128, w: u32, out: &mut std::collections::BTreeMap<u64, u128>, k: &mut u128, depth: u32) {
        let c = mask(c, w);
        if c == 0 {
            return;
        }
        let n = self.nodes[e as usize];
        if depth < 60 && n.w >= w {
            match n.op {
                Op::Const => {
                    *k = mask(k.wrapping_add(c.wrapping_mul(n.k)), w);
                    return;
                }
                Op::Add => {
                    self.modlin(n.a, c, w, out, k, depth + 1);
                    self.modlin(n.b, c, w, out, k, depth + 1);
                    return;
                }
                Op::Sub | Op::Diff => {
                    self.modlin(n.a, c, w, out, k, depth + 1);
                    self.modlin(n.b, c.wrapping_neg(), w, out, k, depth + 1);
                    return;
                }
                Op::Mul => {
                    if let Some(f) = self.is_const(n.b) {
                        self.modlin(n.a, c.wrapping_mul(f), w, out, k, depth + 1);
                        return;
                    }
                }
                Op::Not => {
                    *k = mask(k.wrapping_sub(c), w);
                    self.modlin(n.a, c.wrapping_neg(), w, out, k, depth + 1);
                    return;
                }
                Op::Extract if n.k == 0 => {
                    self.modlin(n.a, c, w, out, k, depth + 1);
                    return;
                }
                _ => {}
            }
        }
        if depth < 60 && n.op == Op::SExt {
            let wa = self.w(n.a);
            if self.hi(n.a) >> (wa - 1) == 0 {
                self.modlin(n.a, c, w, out, k, depth + 1);
                return;
            }
        }
        if depth < 60 && n.op == Op::Concat {
            let wb = self.w(n.b);
            self.modlin(n.b, c, w, out, k, depth + 1);
            if wb < 128 {
                self.modlin(n.a, c << wb, w, out, k, depth + 1);
            }
            return;
        }
        // the exact value
        let l = self.lin(e);
        *k = mask(k.wrapping_add(c.wrapping_mul(l.k as u128)), w);
        for (t, f) in &l.t {
            let f = c.wrapping_mul(*f as u128);
            let nt = self.nodes[*t as usize];
            if nt.op == Op::Diff && depth < 60 {
                // its operands do not wrap, nor does the difference
                self.modlin(nt.a, f, w, out, k, depth + 1);
                self.modlin(nt.b, f.wrapping_neg(), w, out, k, depth + 1);
            } else {
                // one input, whatever the set it was read with
                let (mut key, mut f) = (*t as u64, f);
                if let Some((v, p, q)) = self.affine(*t) {
                    *k = mask(k.wrapping_add(f.wrapping_mul(q as u128)), w);
                    f = f.wrapping_mul(p as u128);
                    if let Some(v) = self.pinned.get(&v) {
                        *k = mask(k.wrapping_add(f.wrapping_mul(*v)), w);
                        continue;
                    }
                    key = v as u64 | 1 << 40;
                }
                let z = out.entry(key).or_insert(0);
                *z = mask(z.wrapping_add(f), w);
            }
        }
    }
    /// (v, p, q) when the value is p times input v plus q
    fn affine(&self, e: E) -> Option<(u32, i128, i128)> {
        let n = self.nodes[e as usize];
        if n.op == Op::Var {
            return Some((n.k as u32, 1, 0));
        }
        let m = &self.meta[e as usize];
        if m.tab.is_none() || n.op == Op::Member || n.w > 100 {
            return None;
        }
        let ds = self.sets[m.dset as usize];
        let mut it = set_iter(&ds);
        let (x, y) = (it.next()?, it.next()?);
        let (a, b) = (self.tget(e, x) as i128, self.tget(e, y) as i128);
        let d = y as i128 - x as i128;
        if (b - a) % d != 0 {
            return None;
        }
        let p = (b - a) / d;
        let q = a - p * x as i128;
        if set_iter(&ds).all(|z| self.tget(e, z) as i128 == p * z as i128 + q) {
            Some((m.var, p, q))
        } else {
            None
        }
    }
    /// Are a and b equal, or different, as sums modulo 2^w?
    fn mod_eq(&mut self, a: E, b: E) -> Option<bool> {
        let w = self.w(a);
        let mut out = std::collections::BTreeMap::new();
        let mut k = 0u128;
        self.modlin(a, 1, w, &mut out, &mut k, 0);
        self.modlin(b, mask(u128::MAX, w), w, &mut out, &mut k, 0);
        if out.values().all(|c| *c == 0) {
            Some(k == 0)
        } else {
            None
        }
    }
    /// Builds the canonical expression of width w for a linear form whose value lies in [0, 2^w).
    fn from_lin(&mut self, l: &Lin, w: u32) -> E {
        if l.t.is_empty() {
            return self.cst(l.k as u128, w);
        }
        if l.k == 0 && l.t.len() == 1 && l.t[0].1 == 1 {
            return self.resize(l.t[0].0, w);
        }
        let (_, hi) = self.lin_range(l).unwrap();
        let nw = bits_of(hi.max(1) as u128).min(w);
        let mut acc: Option<E> = None;
        for (e, c) in &l.t {
            let x = self.resize_trunc(*e, nw);
            let t = if *c == 1 {
                x
            } else {
                let cc = self.cst(*c as u128, nw);
                self.mk_mul_raw(x, cc, nw)
            };
            acc = Some(match acc {
                None => t,
                Some(a) => self.mk(Op::Add, nw, a, t, 0, 0),
            });
        }
        let mut r = acc.unwrap();
        if l.k != 0 {
            let kk = self.cst(l.k as u128, nw);
            r = self.mk(Op::Add, nw, r, kk, 0, 0);
        }
        // remember the exact meaning: partial sums may wrap, the total does not
        let n = self.nodes[r as usize];
        if n.op != Op::Const {
            let (lo, hi) = self.lin_range(l).unwrap();
            let m = &mut self.meta[r as usize];
            if lo >= 0 {
                m.lo = m.lo.max(lo as u128);
                m.hi = m.hi.min(hi as u128);
            }
            if matches!(n.op, Op::Add | Op::Mul) {
                self.lins.insert(r, Rc::new(l.clone()));
            }
        }
        self.resize(r, w)
    }
    fn mk_mul_raw(&mut self, a: E, c: E, w: u32) -> E {
        if self.is_const(c) == Some(1) {
            return a;
        }
        if self.is_const(c) == Some(0) {
            return c;
        }
        self.mk(Op::Mul, w, a, c, 0, 0)
    }
    /// Zero-extends or truncates; the value is preserved when it fits.
    pub fn resize(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w {
            e
        } else if we < w {
            self.zext(e, w)
        } else {
            self.extract(e, 0, w)
        }
    }
    fn resize_trunc(&mut self, e: E, w: u32) -> E {
        self.resize(e, w)
    }
    fn try_lin2(&mut self, a: E, b: E, s: i128, w: u32) -> Option<E> {
        let (la, lb) = (self.lin(a), self.lin(b));
        let l = Self::lin_add(&la, &lb, s)?;
        if l.t.len() > 40 {
            return None;
        }
        let (lo, hi) = self.lin_range(&l)?;
        if lo >= 0 && (w >= 121 || hi < (1i128 << w)) {
            Some(self.from_lin(&l, w))
        } else {
            None
        }
    }

    // ---- constructors -------------------------------------------------------------------
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            return self.cst(x.wrapping_add(y), w);
        }
        if self.is_const(a).is_some() {
            return self.add(b, a);
        }
        if self.is_const(b) == Some(0) {
            return a;
        }
        if let Some(kb) = self.is_const(b) {
            // negative constant: treat as subtraction when that cannot wrap
            let neg = mask(kb.wrapping_neg(), w);
            if neg <= self.lo(a) && w <= 120 {
                let nk = self.cst(neg, w);
                if let Some(r) = self.try_lin2(a, nk, -1, w) {
                    return r;
                }
            }
            let n = self.nodes[a as usize];
            if n.op == Op::Add {
                if let Some(k2) = self.is_const(n.b) {
                    if !self.lins.contains_key(&a) || self.lin(a).t.len() == 1 && self.lin(a).t[0].0 == a {
                        let kk = self.cst(kb.wrapping_add(k2), w);
                        return self.add(n.a, kk);
                    }
                }
            }
        }
        if let Some(r) = self.try_lin2(a, b, 1, w) {
            return r;
        }
        // (x - y) + y and the like
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        let (a, b) = if a <= b || self.is_const(b).is_some() { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if let Some(y) = self.is_const(b) {
            if y == 0 {
                return a;
            }
            if let Some(r) = self.try_lin2(a, b, -1, w) {
                return r;
            }
            let k = self.cst(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        if let Some(r) = self.try_lin2(a, b, -1, w) {
            return r;
        }
        if let Some(r) = self.try_diff(a, b, w) {
            return r;
        }
        let na = self.nodes[a as usize];
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.is_const(a).is_some() && self.is_const(b).is_none() {
            return self.mul(b, a);
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if let Some(x) = self.is_const(a) {
                return self.cst(x.wrapping_mul(k), w);
            }
            if k < LIM as u128 {
                let la = self.lin(a);
                if let Some(l) = Self::lin_scale(&la, k as i128) {
                    if let Some((lo, hi)) = self.lin_range(&l) {
                        if lo >= 0 && (w >= 121 || hi < (1i128 << w)) {
                            return self.from_lin(&l, w);
                        }
                    }
                }
            }
            if k.is_power_of_two() {
                let s = self.cst(k.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
            return self.mk(Op::Mul, w, a, b, 0, 0);
        }
        // narrow
        if let Some(h) = self.hi(a).checked_mul(self.hi(b)) {
            let nw = bits_of(h).max(1);
            if nw < w {
                let (x, y) = (self.resize_trunc(a, nw), self.resize_trunc(b, nw));
                let (x, y) = if x <= y { (x, y) } else { (y, x) };
                let r = self.mk(Op::Mul, nw, x, y, 0, 0);
                // exact range
                let (lo, hi) = (self.lo(a) * self.lo(b), h);
                let m = &mut self.meta[r as usize];
                if self.nodes[r as usize].op == Op::Mul {
                    m.lo = m.lo.max(lo);
                    m.hi = m.hi.min(hi);
                }
                return self.zext(r, w);
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    fn divmod_lin(&mut self, a: E, m: u128) -> Option<(Lin, Lin)> {
        if m >= LIM as u128 {
            return None;
        }
        let m = m as i128;
        let l = self.lin(a);
        let mut q = Lin { k: 0, t: vec![] };
        let mut r = Lin { k: 0, t: vec![] };
        for (e, c) in &l.t {
            // c = cq*m + cr with 0 <= cr < m
            let (cq, cr) = (c.div_euclid(m), c.rem_euclid(m));
            if cr == 0 {
                q.t.push((*e, cq));
            } else {
                r.t.push((*e, *c));
            }
        }
        let (rmin, _) = self.lin_range(&r)?;
        let kq = (l.k.checked_add(rmin)?).div_euclid(m);
        q.k = kq;
        r.k = l.k - kq * m;
        let (lo, hi) = self.lin_range(&r)?;
        if lo >= 0 && hi < m {
            Some((q, r))
        } else {
            None
        }
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 1 {
                return a;
            }
            if k != 0 {
                if let Some(x) = self.is_const(a) {
                    return self.cst(x / k, w);
                }
                if self.hi(a) < k {
                    return self.cst(0, w);
                }
                if let Some((q, _)) = self.divmod_lin(a, k) {
                    if let Some((lo, _)) = self.lin_range(&q) {
                        if lo >= 0 {
                            return self.from_lin(&q, w);
                        }
                    }
                }
                if k.is_power_of_two() {
                    let s = self.cst(k.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
                // (x / c1) / c2
                let n = self.nodes[a as usize];
                if n.op == Op::UDiv {
                    if let Some(k1) = self.is_const(n.b) {
                        if let Some(p) = k1.checked_mul(k) {
                            if mask(p, w) == p {
                                let kk = self.cst(p, w);
                                return self.udiv(n.a, kk);
                            }
                        }
                    }
                }
            }
        }
        let nw = bits_of(self.hi(a).max(self.hi(b))).max(1);
        if nw < w && self.lo(b) > 0 {
            let (x, y) = (self.resize_trunc(a, nw), self.resize_trunc(b, nw));
            let r = self.mk(Op::UDiv, nw, x, y, 0, 0);
            return self.zext(r, w);
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 1 {
                return self.cst(0, w);
            }
            if k != 0 {
                if let Some(x) = self.is_const(a) {
                    return self.cst(x % k, w);
                }
                if self.hi(a) < k {
                    return a;
                }
                if let Some((_, r)) = self.divmod_lin(a, k) {
                    return self.from_lin(&r, w);
                }
                if k.is_power_of_two() {
                    let n = k.trailing_zeros();
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
            }
        }
        let nw = bits_of(self.hi(a).max(self.hi(b))).max(1);
        if nw < w && self.lo(b) > 0 {
            let (x, y) = (self.resize_trunc(a, nw), self.resize_trunc(b, nw));
            let r = self.mk(Op::URem, nw, x, y, 0, 0);
            return self.zext(r, w);
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    fn nonneg(&self, e: E) -> bool {
        self.hi(e) >> (self.w(e) - 1) == 0
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        if self.nonneg(a) && self.nonneg(b) {
            return self.udiv(a, b);
        }
        let w = self.w(a);
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        if self.nonneg(a) && self.nonneg(b) {
            return self.urem(a, b);
        }
        let w = self.w(a);
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, 0, w - k);
            let z = self.cst(0, k);
            return self.concat(x, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.cst(0, w);
            }
            let k = k as u32;
            let x = self.extract(a, k, w - k);
            return self.zext(x, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if self.nonneg(a) {
            return self.lshr(a, b);
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            let k = k.min(w as u128 - 1) as u32;
            let x = self.extract(a, k, w - k);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        debug_assert!(wa < w);
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if self.nonneg(a) {
            return self.zext(a, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(sext(n.k, wa) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            _ => {}
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        debug_assert!(lo + w <= wa);
        let hi = self.hi(a);
        if lo > 0 && hi >> lo == 0 {
            return self.cst(0, w);
        }
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo >= wi {
                    return self.cst(0, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, wi - 1, 1);
                return self.sext(x, w);
            }
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                let x = self.extract(n.b, lo, wb - lo);
                let y = self.extract(n.a, 0, lo + w - wb);
                return self.concat(y, x);
            }
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::Lookup => {
                let t: Vec<u128> = self.tables[n.k as usize].iter().map(|v| mask(v >> lo, w)).collect();
                let t = self.table(t);
                return self.mk(Op::Lookup, w, n.a, 0, 0, t as u128);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let l = self.lin(a);
                if let Some((_, h)) = self.lin_range(&l) {
                    if h < (1i128 << w.min(120)) && !(l.t.len() == 1 && l.t[0].0 == a) {
                        return self.from_lin(&l, w);
                    }
                }
                if !(hi < (1u128 << w.min(127))) || self.meta[a as usize].tab.is_none() {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return match n.op {
                        Op::Add => self.add(x, y),
                        Op::Sub => self.sub(x, y),
                        _ => self.mul(x, y),
                    };
                }
            }
            Op::UDiv | Op::URem if lo == 0 => {
                // operands fit?
                let nw = bits_of(self.hi(n.a).max(self.hi(n.b))).max(1);
                if nw <= w && self.lo(n.b) > 0 {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return if n.op == Op::UDiv { self.udiv(x, y) } else { self.urem(x, y) };
                }
            }
            _ => {}
        }
        if lo > 0 {
            let l = self.lin(a);
            if l.t.len() > 1 && n.op != Op::Concat && lo < 100 {
                // shift as division when exact
                if let Some((q, _)) = self.divmod_lin(a, 1u128 << lo) {
                    if let Some((ql, qh)) = self.lin_range(&q) {
                        if ql >= 0 && qh < (1i128 << w.min(120)) {
                            return self.from_lin(&q, w);
                        }
                    }
                }
            }
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let w = wa + wb;
        assert!(w <= 128, "concat too wide");
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Const {
            if na.k == 0 {
                return self.zext(b, w);
            }
            if nb.op == Op::Const {
                return self.cst((na.k << wb) | nb.k, w);
            }
        }
        // re-join neighbouring extracts
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + wb as u128 {
            return self.extract(na.a, nb.k as u32, w);
        }
        if na.op == Op::Extract {
            // b is the low part of the same value, already simplified by a truncation
            let x = self.extract(na.a, 0, wb.min(self.w(na.a)));
            if na.k == wb as u128 && x == b {
                return self.extract(na.a, 0, w);
            }
        }
        // left-nested normal form: (a ++ b1) ++ b2
        if nb.op == Op::Concat {
            let x = self.concat(a, nb.a);
            return self.concat(x, nb.b);
        }
        if nb.op == Op::ZExt {
            let wi = self.w(nb.a);
            let z = self.cst(0, wb - wi);
            let x = self.concat(a, z);
            return self.concat(x, nb.a);
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        if na.op == Op::Concat {
            let nab = self.nodes[na.b as usize];
            if nab.op == Op::Const && nb.op == Op::Const {
                let x = self.concat(na.b, b);
                return self.concat(na.a, x);
            }
            if nab.op == Op::Extract && nb.op == Op::Extract && nab.a == nb.a && nab.k == nb.k + wb as u128 {
                let x = self.concat(na.b, b);
                return self.concat(na.a, x);
            }
        }
        self.concat_raw(a, b)
    }
    fn concat_raw(&mut self, a: E, b: E) -> E {
        let w = self.w(a) + self.w(b);
        self.mk(Op::Concat, w, a, b, 0, 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.nodes[a as usize];
        let w = n.w;
        match n.op {
            Op::Const => return self.cst(!n.k, w),
            Op::Not => return n.a,
            Op::Concat => {
                let x = self.not(n.a);
                let y = self.not(n.b);
                return self.concat(x, y);
            }
            _ => {}
        }
        self.mk(Op::Not, w, a, 0, 0, 0)
    }
    /// Cuts v at the boundaries of the runs of equal bits of k and applies f to each piece.
    fn by_runs(&mut self, v: E, k: u128, f: &mut dyn FnMut(&mut Cx, E, bool) -> E) -> Option<E> {
        let w = self.w(v);
        let mut runs = vec![];
        let mut i = 0;
        while i < w {
            let b = k >> i & 1;
            let mut j = i + 1;
            while j < w && k >> j & 1 == b {
                j += 1;
            }
            runs.push((i, j - i, b == 1));
            i = j;
        }
        if runs.len() > 34 {
            return None;
        }
        let mut acc: Option<E> = None;
        for (lo, n, b) in runs {
            let x = self.extract(v, lo, n);
            let y = f(self, x, b);
            acc = Some(match acc {
                None => y,
                Some(a) => self.concat(y, a),
            });
        }
        acc
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.is_const(a).is_some() && self.is_const(b).is_none() {
            return self.and(b, a);
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return b;
            }
            if k == mask(u128::MAX, w) {
                return a;
            }
            if let Some(x) = self.is_const(a) {
                return self.cst(x & k, w);
            }
            if let Some(r) = self.by_runs(a, k, &mut |cx, x, one| {
                if one {
                    x
                } else {
                    let w = cx.w(x);
                    cx.cst(0, w)
                }
            }) {
                return r;
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return self.cst(0, w);
        }
        if w == 1 {
            // absorb
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.and(na.a, nb.a);
            let y = self.and(na.b, nb.b);
            return self.concat(x, y);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.is_const(a).is_some() && self.is_const(b).is_none() {
            return self.or(b, a);
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k == mask(u128::MAX, w) {
                return b;
            }
            if let Some(x) = self.is_const(a) {
                return self.cst(x | k, w);
            }
            if let Some(r) = self.by_runs(a, k, &mut |cx, x, one| {
                if one {
                    let w = cx.w(x);
                    cx.cst(u128::MAX, w)
                } else {
                    x
                }
            }) {
                return r;
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return self.cst(u128::MAX, w);
        }
        for (p, q) in [(a, b), (b, a)] {
            // p has zero low bits covering all of q
            let n = self.nodes[p as usize];
            if n.op == Op::Concat {
                if self.is_const(n.b) == Some(0) {
                    let wl = self.w(n.b);
                    if bits_of(self.hi(q)) <= wl {
                        let y = self.extract(q, 0, wl);
                        return self.concat(n.a, y);
                    }
                }
            }
            if n.op == Op::ZExt {
                let ni = self.nodes[n.a as usize];
                if ni.op == Op::Concat && self.is_const(ni.b) == Some(0) {
                    let wl = self.w(ni.b);
                    if bits_of(self.hi(q)) <= wl {
                        let y = self.extract(q, 0, wl);
                        let c = self.concat(ni.a, y);
                        return self.zext(c, w);
                    }
                }
            }
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.or(na.a, nb.a);
            let y = self.or(na.b, nb.b);
            return self.concat(x, y);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        if self.is_const(a).is_some() && self.is_const(b).is_none() {
            return self.xor(b, a);
        }
        if let Some(k) = self.is_const(b) {
            if k == 0 {
                return a;
            }
            if k == mask(u128::MAX, w) {
                return self.not(a);
            }
            if let Some(x) = self.is_const(a) {
                return self.cst(x ^ k, w);
            }
            if let Some(r) = self.by_runs(a, k, &mut |cx, x, one| if one { cx.not(x) } else { x }) {
                return r;
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let n = self.nodes[c as usize];
        if n.op == Op::Not {
            return self.ite(n.a, b, a);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        if self.is_const(a).is_some() && self.is_const(b).is_none() {
            return self.eq(b, a);
        }
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if w == 1 {
            if let Some(k) = self.is_const(b) {
                return if k == 1 { a } else { self.not(a) };
            }
        }
        if let Some(k) = self.is_const(b) {
            match na.op {
                Op::Const => return self.cst((na.k == k) as u128, 1),
                Op::ZExt => {
                    let wi = self.w(na.a);
                    if k >> wi != 0 {
                        return self.cst(0, 1);
                    }
                    let y = self.cst(k, wi);
                    return self.eq(na.a, y);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    if mask(sext(mask(k, wi), wi) as u128, w) != k {
                        return self.cst(0, 1);
                    }
                    let y = self.cst(k, wi);
                    return self.eq(na.a, y);
                }
                Op::Concat => {
                    let wb = self.w(na.b);
                    let y1 = self.cst(k >> wb, w - wb);
                    let y0 = self.cst(k, wb);
                    let p = self.eq(na.a, y1);
                    if self.is_const(p) == Some(0) {
                        return p;
                    }
                    let q = self.eq(na.b, y0);
                    return self.and(p, q);
                }
                Op::Not => {
                    let y = self.cst(!k, w);
                    return self.eq(na.a, y);
                }
                Op::Ite => {
                    if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                Op::Xor | Op::Sub if k == 0 => return self.eq(na.a, na.b),
                Op::Or if k == 0 => {
                    let p = self.eq(na.a, b);
                    let q = self.eq(na.b, b);
                    return self.and(p, q);
                }
                _ => {}
            }
        } else {
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let p = self.eq(na.a, nb.a);
                if self.is_const(p) == Some(0) {
                    return p;
                }
                let q = self.eq(na.b, nb.b);
                return self.and(p, q);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                if m < w {
                    let x = self.resize(a, m);
                    let y = self.resize(b, m);
                    return self.eq(x, y);
                }
            }
        }
        let (la, lb) = (self.lin(a), self.lin(b));
        if let Some(d) = Self::lin_add(&la, &lb, -1) {
            if d.t.is_empty() {
                return self.cst((d.k == 0) as u128, 1);
            }
            if let Some((lo, hi)) = self.lin_range(&d) {
                if lo > 0 || hi < 0 {
                    return self.cst(0, 1);
                }
                // positive combination bounded below by zero: all terms are at their minimum
                if lo == 0 && d.t.len() > 1 || hi == 0 && d.t.len() > 1 {
                    let at_lo = lo == 0;
                    let mut acc = self.cst(1, 1);
                    for (e, c) in &d.t {
                        let v = if (*c > 0) == at_lo { self.lo(*e) } else { self.hi(*e) };
                        let we = self.w(*e);
                        let k = self.cst(v, we);
                        let p = self.eq(*e, k);
                        acc = self.and(acc, p);
                    }
                    return acc;
                }
                // move terms to both sides, cancelling
                let g = d.t.iter().fold(0u128, |g, (_, c)| gcd(g, c.unsigned_abs()));
                if g > 1 && d.k.rem_euclid(g as i128) != 0 {
                    return self.cst(0, 1);
                }
                if d.t.len() < la.t.len() + lb.t.len() || g > 1 {
                    let g = g.max(1) as i128;
                    let mut p = Lin { k: 0, t: vec![] };
                    let mut q = Lin { k: 0, t: vec![] };
                    for (e, c) in &d.t {
                        if *c > 0 {
                            p.t.push((*e, c / g));
                        } else {
                            q.t.push((*e, -c / g));
                        }
                    }
                    if d.k > 0 {
                        p.k = d.k / g;
                    } else {
                        q.k = -d.k / g;
                    }
                    if let (Some((_, h1)), Some((_, h2))) = (self.lin_range(&p), self.lin_range(&q)) {
                        let nw = bits_of(h1.max(h2).max(1) as u128);
                        let x = self.from_lin(&p, nw);
                        let y = self.from_lin(&q, nw);
                        let (x, y) = if self.is_const(y).is_some() || x <= y { (x, y) } else { (y, x) };
                        if x == y {
                            return self.cst(1, 1);
                        }
                        if (x, y) != (a, b) && self.is_const(x).is_none() {
                            return self.mk(Op::Eq, 1, x, y, 0, 0);
                        }
                    }
                }
            }
        }
        if w > 8 {
            if let Some(r) = self.mod_eq(a, b) {
                return self.cst(r as u128, 1);
            }
        }
        // narrow
        let nw = bits_of(self.hi(a).max(self.hi(b))).max(1);
        let (mut x, mut y) = (a, b);
        if nw < w {
            x = self.resize(a, nw);
            y = self.resize(b, nw);
            if x == y {
                return self.cst(1, 1);
            }
        }
        let (x, y) = if self.is_const(y).is_some() || (x <= y && self.is_const(x).is_none()) { (x, y) } else { (y, x) };
        self.mk(Op::Eq, 1, x, y, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(0, 1);
        }
        if self.hi(a) < self.lo(b) {
            return self.cst(1, 1);
        }
        if self.lo(a) >= self.hi(b) {
            return self.cst(0, 1);
        }
        let w = self.w(a);
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        if self.is_const(b) == Some(1) {
            let z = self.cst(0, w);
            return self.eq(a, z);
        }
        if self.is_const(a) == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        let (la, lb) = (self.lin(a), self.lin(b));
        if let Some(d) = Self::lin_add(&la, &lb, -1) {
            if let Some((lo, hi)) = self.lin_range(&d) {
                if hi < 0 {
                    return self.cst(1, 1);
                }
                if lo >= 0 {
                    return self.cst(0, 1);
                }
                if self.fact_bound(&d).map_or(false, |b| b >= 0) {
                    return self.cst(0, 1);
                }
                let nd = Self::lin_scale(&d, -1);
                if nd.and_then(|d| self.fact_bound(&d)).map_or(false, |b| b >= 1) {
                    return self.cst(1, 1);
                }
            }
        }
        let nw = bits_of(self.hi(a).max(self.hi(b))).max(1);
        let (mut x, mut y) = (a, b);
        if nw < w {
            x = self.resize(a, nw);
            y = self.resize(b, nw);
        }
        self.mk(Op::Ult, 1, x, y, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, 1);
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        let neg = |cx: &Cx, e: E| cx.lo(e) >> (w - 1) == 1;
        if neg(self, a) && neg(self, b) {
            return self.ult(a, b);
        }
        if neg(self, a) && self.nonneg(b) {
            return self.cst(1, 1);
        }
        if self.nonneg(a) && neg(self, b) {
            return self.cst(0, 1);
        }
        if self.is_const(b) == Some(0) && w > 1 {
            return self.extract(a, w - 1, 1);
        }
        if self.is_const(a) == Some(mask(u128::MAX, w)) && w > 1 {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let (wa, wb) = (self.sig_w(&na), self.sig_w(&nb));
        let m = wa.max(wb);
        if m < w {
            let x = self.extract(a, 0, m);
            let y = self.extract(b, 0, m);
            return self.slt(x, y);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    /// Number of low bits that determine the signed value.
    fn sig_w(&self, n: &Node) -> u32 {
        match n.op {
            Op::SExt => self.w(n.a),
            Op::ZExt => self.w(n.a) + 1,
            Op::Const => {
                let v = sext(n.k, n.w);
                let x = if v < 0 { !v } else { v } as u128;
                (bits_of(x) + 1).min(n.w)
            }
            _ => n.w,
        }
    }
    pub fn umulo(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        match self.hi(a).checked_mul(self.hi(b)) {
            Some(h) if mask(h, w) == h => return self.cst(0, 1),
            _ => {}
        }
        if w <= 64 {
            let x = self.zext(a, 2 * w);
            let y = self.zext(b, 2 * w);
            let p = self.mul(x, y);
            let h = self.extract(p, w, w);
            let z = self.cst(0, w);
            let e = self.eq(h, z);
            return self.not(e);
        }
        self.mk(Op::UMulO, 1, a, b, 0, 0)
    }
    pub fn lookup(&mut self, idx: E, table: Vec<u128>, w: u32) -> E {
        if let Some(k) = self.is_const(idx) {
            return self.cst(table.get(k as usize).copied().unwrap_or(0), w);
        }
        let t = self.table(table);
        self.mk(Op::Lookup, w, idx, 0, 0, t as u128)
    }
    /// Replaces an input byte by the same input with the value set known on the path.
    pub fn refine(&mut self, e: E, doms: &[SetId]) -> E {
        let n = self.nodes[e as usize];
        if n.op == Op::Var && n.w == 8 {
            let d = doms[n.k as usize];
            if d != n.a {
                return self.var8(n.k as u32, d);
            }
            return e;
        }
        let m = &self.meta[e as usize];
        if m.tab.is_some() && n.op != Op::Member {
            let v = m.var;
            let d = doms[v as usize];
            if d != m.dset {
                // constant on the current set?
                let ds = self.sets[d as usize];
                let mut it = set_iter(&ds);
                if let Some(f) = it.next() {
                    let k = self.tget(e, f);
                    let vals: Vec<u8> = it.collect();
                    if vals.iter().all(|x| self.tget(e, *x) == k) {
                        return self.cst(k, n.w);
                    }
                }
            }
        }
        e
    }
    /// The expression with the values known on the path put in.
    pub fn simplify(&mut self, e: E, known: &HashMap<E, u128>, doms: &[SetId], narrow: bool, memo: &mut HashMap<E, E>) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let r = if let Some(k) = known.get(&e) {
            self.cst(*k, n.w)
        } else {
            match n.op {
                Op::Const | Op::Diff => e,
                Op::Var => {
                    if narrow {
                        self.refine(e, doms)
                    } else {
                        e
                    }
                }
                Op::Member => {
                    let (d, s) = (self.sets[doms[n.a as usize] as usize], self.sets[n.b as usize]);
                    if set_empty(&set_and(&d, &s)) {
                        self.cst(0, 1)
                    } else if set_empty(&set_minus(&d, &s)) {
                        self.cst(1, 1)
                    } else {
                        e
                    }
                }
                _ => {
                    let k = Self::arity(n.op);
                    let a = if k > 0 { self.simplify(n.a, known, doms, narrow, memo) } else { n.a };
                    let b = if k > 1 { self.simplify(n.b, known, doms, narrow, memo) } else { n.b };
                    let c = if k > 2 { self.simplify(n.c, known, doms, narrow, memo) } else { n.c };
                    if (a, b, c) == (n.a, n.b, n.c) {
                        e
                    } else {
                        match n.op {
                            Op::Add => self.add(a, b),
                            Op::Sub => self.sub(a, b),
                            Op::Mul => self.mul(a, b),
                            Op::UDiv => self.udiv(a, b),
                            Op::URem => self.urem(a, b),
                            Op::SDiv => self.sdiv(a, b),
                            Op::SRem => self.srem(a, b),
                            Op::Shl => self.shl(a, b),
                            Op::LShr => self.lshr(a, b),
                            Op::AShr => self.ashr(a, b),
                            Op::And => self.and(a, b),
                            Op::Or => self.or(a, b),
                            Op::Xor => self.xor(a, b),
                            Op::Not => self.not(a),
                            Op::ZExt => self.zext(a, n.w),
                            Op::SExt => self.sext(a, n.w),
                            Op::Extract => self.extract(a, n.k as u32, n.w),
                            Op::Concat => self.concat(a, b),
                            Op::Eq => self.eq(a, b),
                            Op::Ult => self.ult(a, b),
                            Op::Slt => self.slt(a, b),
                            Op::Ite => self.ite(a, b, c),
                            _ => e,
                        }
                    }
                }
            }
        };
        memo.insert(e, r);
        r
    }
    /// Possible values of a tabulated expression for the given set of its input.
    pub fn tab_values(&self, e: E, doms: &[SetId]) -> Option<Vec<u128>> {
        let m = &self.meta[e as usize];
        if m.tab.is_none() {
            return None;
        }
        let ds = set_and(&self.sets[doms[m.var as usize] as usize], &self.sets[m.dset as usize]);
        let mut v: Vec<u128> = set_iter(&ds).map(|x| self.tget(e, x)).collect();
        v.sort();
        v.dedup();
        Some(v)
    }
    pub fn eval(&self, e: E, asg: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return asg[n.k as usize],
            Op::Member => return set_has(&self.sets[n.b as usize], asg[n.a as usize] as u8) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let ar = Self::arity(n.op);
        let a = self.eval(n.a, asg, memo);
        let v = if n.op == Op::Lookup {
            self.tables[n.k as usize].get(a as usize).copied().unwrap_or(0)
        } else if n.op == Op::Ite {
            if a == 1 {
                self.eval(n.b, asg, memo)
            } else {
                self.eval(n.c, asg, memo)
            }
        } else {
            let b = if ar > 1 { self.eval(n.b, asg, memo) } else { 0 };
            let (wa, wb) = (self.w(n.a), if ar > 1 { self.w(n.b) } else { 0 });
            apply(n.op, n.w, wa, wb, n.k, a, b, 0)
        };
        memo.insert(e, v);
        v
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = &self.nodes[e as usize];
        if depth == 0 {
            return format!("#{}", e);
        }
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Member => format!("(v{} in {:?})", n.a, set_iter(&self.sets[n.b as usize]).map(|c| c as char).collect::<String>()),
            _ => {
                let ks: Vec<String> = self.kids(e).iter().map(|k| self.show(*k, depth - 1)).collect();
                format!("({:?}:{}{} {})", n.op, n.w, if n.op == Op::Extract { format!("@{}", n.k) } else { String::new() }, ks.join(" "))
            }
        }
    }
}

fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
