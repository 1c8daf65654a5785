//! Decision queries, discharged by Z3 (C API).
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
}

#[derive(Clone, Debug)]
pub enum Answer {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub fast: u64,
    pub audited: u64,
    pub integer: u64,
    pub tabled: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    cx: P,
    params: P,
    logic: P,
    ast: HashMap<E, P>,   // bit-vector terms
    bast: HashMap<E, P>,  // boolean terms for width-1 expressions
    vars: HashMap<(u32, u32), P>,
    sorts: HashMap<u32, P>,
    cache: HashMap<Vec<u64>, Answer>,
    setp: HashMap<(u32, Set), P>,
    // translation to integers
    isort: P,
    ilogic: P,
    iast: HashMap<E, Option<P>>,
    ibast: HashMap<E, Option<P>>,
    ivars: HashMap<u32, P>,
    tiny: P,
    small: P,
    some: P,
    mid: P,
    pub stats: Stats,
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let cx = Z3_mk_context_rc(cfg);
            let sym = |t: &str| {
                let k = CString::new(t).unwrap();
                Z3_mk_string_symbol(cx, k.as_ptr())
            };
            let limit = |n: u32, ms: u32| {
                let params = Z3_mk_params(cx);
                Z3_params_inc_ref(cx, params);
                Z3_params_set_uint(cx, params, sym("rlimit"), n);
                Z3_params_set_uint(cx, params, sym("timeout"), ms);
                params
            };
            let params = limit(rlimit, 30_000);
            let tiny = limit(TINY, 60_000);
            let small = limit(SMALL.min(rlimit), 60_000);
            let some = limit(SOME.min(rlimit), 60_000);
            let mid = limit(MID.min(rlimit), 20_000);
            let logic = sym("QF_BV");
            let ilogic = sym("QF_LIA");
            let isort = Z3_mk_int_sort(cx);
            Z3_inc_ref(cx, isort);
            Solver { cx, isort, ilogic, iast: HashMap::new(), ibast: HashMap::new(), ivars: HashMap::new(), tiny, small, some, mid, params, logic, ast: HashMap::new(), bast: HashMap::new(), vars: HashMap::new(), sorts: HashMap::new(), cache: HashMap::new(), setp: HashMap::new(), stats: Stats::default() }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let cx = self.cx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(cx, w);
            Z3_inc_ref(cx, s);
            s
        })
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.cx, a) };
        a
    }
    fn var(&mut self, idx: u32, w: u32) -> P {
        if let Some(&p) = self.vars.get(&(idx, w)) {
            return p;
        }
        let s = self.sort(w);
        let n = CString::new(format!("v{}_{}", idx, w)).unwrap();
        let p = unsafe { Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, n.as_ptr()), s) };
        self.keep(p);
        self.vars.insert((idx, w), p);
        p
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.cx, v as u64, s)
            } else {
                let n = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.cx, n.as_ptr(), s)
            }
        }
    }
    fn set_pred(&mut self, var: u32, s: &Set) -> P {
        if let Some(&p) = self.setp.get(&(var, *s)) {
            return p;
        }
        let p = self.set_pred_new(var, s);
        self.setp.insert((var, *s), p);
        p
    }
    fn set_pred_new(&mut self, var: u32, s: &Set) -> P {
        let v = self.var(var, 8);
        let mut alts: Vec<P> = vec![];
        let mut i = 0usize;
        unsafe {
            while i < 256 {
                if set_has(s, i as u8) {
                    let mut j = i;
                    while j + 1 < 256 && set_has(s, (j + 1) as u8) {
                        j += 1;
                    }
                    let a = self.num(i as u128, 8);
                    self.keep(a);
                    let t = if i == j {
                        Z3_mk_eq(self.cx, v, a)
                    } else {
                        let b = self.num(j as u128, 8);
                        self.keep(b);
                        let x = self.keep(Z3_mk_bvule(self.cx, a, v));
                        let y = self.keep(Z3_mk_bvule(self.cx, v, b));
                        let xs = [x, y];
                        Z3_mk_and(self.cx, 2, xs.as_ptr())
                    };
                    alts.push(self.keep(t));
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            if alts.is_empty() {
                return self.keep(Z3_mk_false(self.cx));
            }
            if alts.len() == 1 {
                return alts[0];
            }
            let r = Z3_mk_or(self.cx, alts.len() as c_uint, alts.as_ptr());
            self.keep(r)
        }
    }
    /// Boolean translation of a width-1 expression.
    fn tb(&mut self, cx: &Cx, e: E) -> P {
        if let Some(&p) = self.bast.get(&e) {
            return p;
        }
        let n = cx.nodes[e as usize];
        let c = self.cx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Member => {
                    let s = cx.sets[n.b as usize];
                    self.set_pred(n.a, &s)
                }
                Op::And | Op::Or => {
                    let x = [self.tb(cx, n.a), self.tb(cx, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, x.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, x.as_ptr())
                    }
                }
                Op::Xor => {
                    let x = self.tb(cx, n.a);
                    let y = self.tb(cx, n.b);
                    let q = self.keep(Z3_mk_eq(c, x, y));
                    Z3_mk_not(c, q)
                }
                Op::Not => {
                    let x = self.tb(cx, n.a);
                    Z3_mk_not(c, x)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(cx, n.a), self.tb(cx, n.b), self.tb(cx, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq => {
                    if cx.w(n.a) == 1 {
                        let (x, y) = (self.tb(cx, n.a), self.tb(cx, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.tv(cx, n.a), self.tv(cx, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.tv(cx, n.a), self.tv(cx, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.tv(cx, n.a), self.tv(cx, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::UMulO => {
                    let (x, y) = (self.tv(cx, n.a), self.tv(cx, n.b));
                    let q = self.keep(Z3_mk_bvmul_no_overflow(c, x, y, false));
                    Z3_mk_not(c, q)
                }
                _ => {
                    let x = self.tv(cx, e);
                    let one = self.num(1, 1);
                    self.keep(one);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.keep(r);
        self.bast.insert(e, r);
        r
    }
    fn tv(&mut self, cx: &Cx, e: E) -> P {
        if let Some(&p) = self.ast.get(&e) {
            return p;
        }
        let n = cx.nodes[e as usize];
        let c = self.cx;
        let w = n.w;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => self.var(n.k as u32, w),
                Op::Member | Op::Eq | Op::Ult | Op::Slt | Op::UMulO => {
                    let b = self.tb(cx, e);
                    let (x, y) = (self.num(1, 1), self.num(0, 1));
                    self.keep(x);
                    self.keep(y);
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tb(cx, n.a), self.tv(cx, n.b), self.tv(cx, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Not => {
                    let x = self.tv(cx, n.a);
                    Z3_mk_bvnot(c, x)
                }
                Op::ZExt => {
                    let x = self.tv(cx, n.a);
                    Z3_mk_zero_ext(c, w - cx.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.tv(cx, n.a);
                    Z3_mk_sign_ext(c, w - cx.w(n.a), x)
                }
                Op::Extract => {
                    let x = self.tv(cx, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, x)
                }
                Op::Lookup => {
                    let t = cx.tables[n.k as usize].clone();
                    let x = self.tv(cx, n.a);
                    let wi = cx.w(n.a);
                    let (lo, hi) = (cx.lo(n.a) as usize, (cx.hi(n.a) as usize).min(t.len() - 1));
                    let z = self.num(t[hi], w);
                    let mut acc = self.keep(z);
                    // runs of equal values, from the top
                    let mut i = hi;
                    while i > lo {
                        let v = t[i - 1];
                        if v != t[i] {
                            let k = self.num(i as u128, wi);
                            self.keep(k);
                            let q = self.keep(Z3_mk_bvult(c, x, k));
                            let vv = self.num(v, w);
                            self.keep(vv);
                            acc = self.keep(Z3_mk_ite(c, q, vv, acc));
                        }
                        i -= 1;
                    }
                    acc
                }
                _ => {
                    let (x, y) = (self.tv(cx, n.a), self.tv(cx, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub | Op::Diff => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        o => panic!("solver: {:?}", o),
                    }
                }
            }
        };
        self.keep(r);
        self.ast.insert(e, r);
        r
    }
    /// doms: (variable, width, set id or (lo,hi)) for the inputs that occur.
    pub fn check(&mut self, cx: &Cx, cons: &[E], doms: &[(u32, Dom)]) -> Answer {
        let mut key: Vec<u64> = cons.iter().map(|e| *e as u64).collect();
        key.sort();
        key.dedup();
        key.push(u64::MAX);
        for (v, d) in doms {
            key.push((*v as u64) << 32);
            match d {
                Dom::Set(s) => key.push(*s as u64),
                Dom::Range(w, l, h) => {
                    key.push(*w as u64 + (1 << 40));
                    key.push(*l as u64);
                    key.push((*l >> 64) as u64);
                    key.push(*h as u64);
                    key.push((*h >> 64) as u64);
                }
            }
        }
        if let Some(a) = self.cache.get(&key) {
            self.stats.cached += 1;
            return a.clone();
        }
        let t0 = Instant::now();
        self.stats.queries += 1;
        // bit-vectors with a small budget, then integers, then bit-vectors again
        let mut few = 1u128;
        for (_, d) in doms {
            few = few.saturating_mul(match d {
                Dom::Set(s) => set_count(&cx.sets[*s as usize]) as u128,
                Dom::Range(_, l, h) => h - l + 1,
            });
        }
        let mut ans = self.bv(cx, cons, doms, if few <= 1 << 13 { self.tiny } else { self.small });
        if let Answer::Unknown = ans {
            ans = self.table(cx, cons, doms);
        }
        if let Answer::Unknown = ans {
            ans = self.bv(cx, cons, doms, self.some);
        }
        if let Answer::Unknown = ans {
            ans = self.ints(cx, cons, doms);
            if let Answer::Unknown = ans {
                ans = self.bv(cx, cons, doms, self.params);
            } else {
                self.stats.integer += 1;
            }
        }
        match &ans {
            Answer::Sat(_) => self.stats.sat += 1,
            Answer::Unsat => self.stats.unsat += 1,
            Answer::Unknown => self.stats.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        self.stats.max_time = self.stats.max_time.max(dt);
        if dt > 1.0 && std::env::var("SX_SLOW").is_ok() {
            eprintln!("slow {:.1}s {} doms {:?}", dt, match &ans { Answer::Sat(_) => "sat", Answer::Unsat => "unsat", _ => "unknown" }, doms);
            for e in cons {
                eprintln!("   {}", cx.show(*e, 40));
            }
        }
        self.cache.insert(key, ans.clone());
        ans
    }
    fn bv(&mut self, cx: &Cx, cons: &[E], doms: &[(u32, Dom)], params: P) -> Answer {
        let c = self.cx;
        unsafe {
            let s = Z3_mk_solver_for_logic(c, self.logic);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, params);
            for (v, d) in doms {
                match d {
                    Dom::Set(sid) => {
                        let set = cx.sets[*sid as usize];
                        let p = self.set_pred(*v, &set);
                        Z3_solver_assert(c, s, p);
                    }
                    Dom::Range(w, l, h) => {
                        let x = self.var(*v, *w);
                        let a = self.num(*l, *w);
                        self.keep(a);
                        let b = self.num(*h, *w);
                        self.keep(b);
                        Z3_solver_assert(c, s, self.keep(Z3_mk_bvule(c, a, x)));
                        Z3_solver_assert(c, s, self.keep(Z3_mk_bvule(c, x, b)));
                    }
                }
            }
            for e in cons {
                let p = self.tb(cx, *e);
                Z3_solver_assert(c, s, p);
            }
            let r = Z3_solver_check(c, s);
            let a = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (v, d) in doms {
                        let w = match d {
                            Dom::Set(_) => 8,
                            Dom::Range(w, _, _) => *w,
                        };
                        let x = self.var(*v, w);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, x, true, &mut r);
                        let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap();
                        out.push((*v, st.parse::<u128>().unwrap()));
                    }
                    Z3_model_dec_ref(c, m);
                    Answer::Sat(out)
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            a
        }
    }

    /// A query over few assignments: the formula's value on each of them.
    fn table(&mut self, cx: &Cx, cons: &[E], doms: &[(u32, Dom)]) -> Answer {
        let mut vals: Vec<Vec<u128>> = vec![];
        let mut total = 1usize;
        for (_, d) in doms {
            let v: Vec<u128> = match d {
                Dom::Set(s) => set_iter(&cx.sets[*s as usize]).map(|c| c as u128).collect(),
                Dom::Range(_, l, h) => {
                    if h - l > 1 << 14 {
                        return Answer::Unknown;
                    }
                    (*l..=*h).collect()
                }
            };
            total = total.saturating_mul(v.len());
            vals.push(v);
        }
        if total > 1 << 15 {
            return Answer::Unknown;
        }
        // reachable terms, children first
        let mut seen: HashMap<E, usize> = HashMap::new();
        let mut order: Vec<E> = vec![];
        let mut todo: Vec<E> = cons.to_vec();
        while let Some(e) = todo.pop() {
            if seen.insert(e, 0).is_none() {
                order.push(e);
                todo.extend(cx.kids(e));
            }
        }
        if order.len() * total > 200_000_000 {
            return Answer::Unknown;
        }
        order.sort();
        for (i, e) in order.iter().enumerate() {
            seen.insert(*e, i);
        }
        let varpos: HashMap<u32, usize> = doms.iter().enumerate().map(|(i, d)| (d.0, i)).collect();
        enum I {
            K(u128),
            V(usize),
            M(usize, Set),
            O(Op, u32, u32, u32, u128, usize, usize),
            T(std::rc::Rc<Vec<u128>>, usize),
            If(usize, usize, usize),
        }
        let mut code = vec![];
        for e in &order {
            let n = cx.nodes[*e as usize];
            let pos = |v: u32| varpos.get(&v).copied();
            let at = |x: E| seen[&x];
            code.push(match n.op {
                Op::Const => I::K(n.k),
                Op::Var => match pos(n.k as u32) {
                    Some(p) => I::V(p),
                    None => return Answer::Unknown,
                },
                Op::Member => match pos(n.a) {
                    Some(p) => I::M(p, cx.sets[n.b as usize]),
                    None => return Answer::Unknown,
                },
                Op::Lookup => I::T(cx.tables[n.k as usize].clone(), at(n.a)),
                Op::Ite => I::If(at(n.a), at(n.b), at(n.c)),
                _ => {
                    let two = cx.kids(*e).len() > 1;
                    I::O(n.op, n.w, cx.w(n.a), if two { cx.w(n.b) } else { 0 }, n.k, at(n.a), if two { at(n.b) } else { at(n.a) })
                }
            });
        }
        let goals: Vec<usize> = cons.iter().map(|e| seen[e]).collect();
        let mut idx = vec![0usize; vals.len()];
        let mut r = vec![0u128; code.len()];
        self.stats.tabled += 1;
        loop {
            for (i, c) in code.iter().enumerate() {
                r[i] = match c {
                    I::K(k) => *k,
                    I::V(p) => vals[*p][idx[*p]],
                    I::M(p, s) => set_has(s, vals[*p][idx[*p]] as u8) as u128,
                    I::O(op, w, wa, wb, k, a, b) => apply(*op, *w, *wa, *wb, *k, r[*a], r[*b], 0),
                    I::T(t, a) => t.get(r[*a] as usize).copied().unwrap_or(0),
                    I::If(a, b, c) => {
                        if r[*a] == 1 {
                            r[*b]
                        } else {
                            r[*c]
                        }
                    }
                };
            }
            if goals.iter().all(|g| r[*g] == 1) {
                return Answer::Sat(doms.iter().enumerate().map(|(i, d)| (d.0, vals[i][idx[i]])).collect());
            }
            let mut p = 0;
            loop {
                if p == idx.len() {
                    return Answer::Unsat;
                }
                idx[p] += 1;
                if idx[p] < vals[p].len() {
                    break;
                }
                idx[p] = 0;
                p += 1;
            }
        }
    }

    // ---- the same query over unbounded integers, with div and mod where bits are cut off
    fn ik(&mut self, v: &str) -> P {
        let n = CString::new(v).unwrap();
        let p = unsafe { Z3_mk_numeral(self.cx, n.as_ptr(), self.isort) };
        self.keep(p)
    }
    fn ipow(&mut self, n: u32) -> P {
        let t = if n < 128 { format!("{}", 1u128 << n) } else { "340282366920938463463374607431768211456".to_string() };
        assert!(n <= 128);
        self.ik(&t)
    }
    fn ivar(&mut self, idx: u32) -> P {
        if let Some(&p) = self.ivars.get(&idx) {
            return p;
        }
        let n = CString::new(format!("i{}", idx)).unwrap();
        let p = unsafe { Z3_mk_const(self.cx, Z3_mk_string_symbol(self.cx, n.as_ptr()), self.isort) };
        self.keep(p);
        self.ivars.insert(idx, p);
        p
    }
    fn iop(&mut self, f: unsafe extern "C" fn(P, c_uint, *const P) -> P, a: P, b: P) -> P {
        let x = [a, b];
        let p = unsafe { f(self.cx, 2, x.as_ptr()) };
        self.keep(p)
    }
    fn iset(&mut self, var: u32, s: &Set) -> P {
        let v = self.ivar(var);
        let mut alts: Vec<P> = vec![];
        let mut i = 0usize;
        while i < 256 {
            if set_has(s, i as u8) {
                let mut j = i;
                while j + 1 < 256 && set_has(s, (j + 1) as u8) {
                    j += 1;
                }
                let (a, b) = (self.ik(&i.to_string()), self.ik(&j.to_string()));
                let x = unsafe { self.keep(Z3_mk_le(self.cx, a, v)) };
                let y = unsafe { self.keep(Z3_mk_le(self.cx, v, b)) };
                alts.push(self.iop(Z3_mk_and, x, y));
                i = j + 1;
            } else {
                i += 1;
            }
        }
        unsafe {
            match alts.len() {
                0 => self.keep(Z3_mk_false(self.cx)),
                1 => alts[0],
                n => self.keep(Z3_mk_or(self.cx, n as c_uint, alts.as_ptr())),
            }
        }
    }
    fn ib(&mut self, cx: &Cx, e: E) -> Option<P> {
        if let Some(&p) = self.ibast.get(&e) {
            return p;
        }
        let r = self.ib_new(cx, e);
        if let Some(p) = r {
            self.keep(p);
        }
        self.ibast.insert(e, r);
        r
    }
    fn ib_new(&mut self, cx: &Cx, e: E) -> Option<P> {
        let n = cx.nodes[e as usize];
        let c = self.cx;
        unsafe {
            Some(match n.op {
                Op::Const => {
                    if n.k == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Member => {
                    let s = cx.sets[n.b as usize];
                    self.iset(n.a, &s)
                }
                Op::And | Op::Or => {
                    let (x, y) = (self.ib(cx, n.a)?, self.ib(cx, n.b)?);
                    self.iop(if n.op == Op::And { Z3_mk_and } else { Z3_mk_or }, x, y)
                }
                Op::Xor => {
                    let (x, y) = (self.ib(cx, n.a)?, self.ib(cx, n.b)?);
                    let q = self.keep(Z3_mk_eq(c, x, y));
                    Z3_mk_not(c, q)
                }
                Op::Not => {
                    let x = self.ib(cx, n.a)?;
                    Z3_mk_not(c, x)
                }
                Op::Ite => {
                    let (x, y, z) = (self.ib(cx, n.a)?, self.ib(cx, n.b)?, self.ib(cx, n.c)?);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Eq if cx.w(n.a) == 1 => {
                    let (x, y) = (self.ib(cx, n.a)?, self.ib(cx, n.b)?);
                    Z3_mk_eq(c, x, y)
                }
                Op::Eq => {
                    let (x, y) = (self.iv(cx, n.a)?, self.iv(cx, n.b)?);
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let (x, y) = (self.iv(cx, n.a)?, self.iv(cx, n.b)?);
                    Z3_mk_lt(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.isigned(cx, n.a)?, self.isigned(cx, n.b)?);
                    Z3_mk_lt(c, x, y)
                }
                Op::UMulO => {
                    let (a, k) = if let Some(k) = cx.is_const(n.a) { (n.b, k) } else { (n.a, cx.is_const(n.b)?) };
                    let x = self.iv(cx, a)?;
                    let k = self.ik(&k.to_string());
                    let m = self.iop(Z3_mk_mul, k, x);
                    let p = self.ipow(cx.w(n.a));
                    Z3_mk_le(c, p, m)
                }
                _ => {
                    let x = self.iv(cx, e)?;
                    let one = self.ik("1");
                    Z3_mk_eq(c, x, one)
                }
            })
        }
    }
    fn isigned(&mut self, cx: &Cx, e: E) -> Option<P> {
        let w = cx.w(e);
        let x = self.iv(cx, e)?;
        if w < 128 && cx.hi(e) < 1u128 << (w - 1) {
            return Some(x);
        }
        let (h, p) = (self.ipow(w - 1), self.ipow(w));
        unsafe {
            let q = self.keep(Z3_mk_lt(self.cx, x, h));
            let y = self.iop(Z3_mk_sub, x, p);
            Some(self.keep(Z3_mk_ite(self.cx, q, x, y)))
        }
    }
    fn imod(&mut self, x: P, n: u32) -> P {
        let p = self.ipow(n);
        let r = unsafe { Z3_mk_mod(self.cx, x, p) };
        self.keep(r)
    }
    fn idiv(&mut self, x: P, n: u32) -> P {
        if n == 0 {
            return x;
        }
        let p = self.ipow(n);
        let r = unsafe { Z3_mk_div(self.cx, x, p) };
        self.keep(r)
    }
    /// Unsigned value of a bit-vector term.
    fn iv(&mut self, cx: &Cx, e: E) -> Option<P> {
        if let Some(&p) = self.iast.get(&e) {
            return p;
        }
        let r = self.iv_new(cx, e);
        if let Some(p) = r {
            self.keep(p);
        }
        self.iast.insert(e, r);
        r
    }
    fn iv_new(&mut self, cx: &Cx, e: E) -> Option<P> {
        let n = cx.nodes[e as usize];
        let c = self.cx;
        let w = n.w;
        let top: u128 = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        unsafe {
            Some(match n.op {
                Op::Const => self.ik(&n.k.to_string()),
                Op::Var => self.ivar(n.k as u32),
                Op::Member | Op::Eq | Op::Ult | Op::Slt | Op::UMulO => {
                    let b = self.ib(cx, e)?;
                    let (x, y) = (self.ik("1"), self.ik("0"));
                    Z3_mk_ite(c, b, x, y)
                }
                _ if w == 1 && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Not) => {
                    let b = self.ib(cx, e)?;
                    let (x, y) = (self.ik("1"), self.ik("0"));
                    Z3_mk_ite(c, b, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.ib(cx, n.a)?, self.iv(cx, n.b)?, self.iv(cx, n.c)?);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Not => {
                    let x = self.iv(cx, n.a)?;
                    let t = self.ik(&top.to_string());
                    self.iop(Z3_mk_sub, t, x)
                }
                Op::ZExt => self.iv(cx, n.a)?,
                Op::SExt => {
                    let x = self.isigned(cx, n.a)?;
                    if w < 128 && cx.hi(n.a) < 1u128 << (cx.w(n.a) - 1) {
                        return Some(x);
                    }
                    let (z, p) = (self.ik("0"), self.ipow(w));
                    let q = self.keep(Z3_mk_lt(c, x, z));
                    let y = self.iop(Z3_mk_add, x, p);
                    Z3_mk_ite(c, q, y, x)
                }
                Op::Extract => {
                    let x = self.iv(cx, n.a)?;
                    let lo = n.k as u32;
                    let y = self.idiv(x, lo);
                    if cx.hi(n.a) >> lo <= top {
                        y
                    } else {
                        self.imod(y, w)
                    }
                }
                Op::Concat => {
                    let (x, y) = (self.iv(cx, n.a)?, self.iv(cx, n.b)?);
                    let p = self.ipow(cx.w(n.b));
                    let h = self.iop(Z3_mk_mul, p, x);
                    self.iop(Z3_mk_add, h, y)
                }
                Op::Lookup => {
                    let t = cx.tables[n.k as usize].clone();
                    let x = self.iv(cx, n.a)?;
                    let (lo, hi) = (cx.lo(n.a) as usize, (cx.hi(n.a) as usize).min(t.len() - 1));
                    let mut acc = self.ik(&t[hi].to_string());
                    let mut i = hi;
                    while i > lo {
                        let v = t[i - 1];
                        if v != t[i] {
                            let k = self.ik(&i.to_string());
                            let q = self.keep(Z3_mk_lt(c, x, k));
                            let vv = self.ik(&v.to_string());
                            acc = self.keep(Z3_mk_ite(c, q, vv, acc));
                        }
                        i -= 1;
                    }
                    acc
                }
                Op::Add | Op::Sub | Op::Mul => {
                    // one linear form, reduced once
                    let mut lf: Vec<(E, i128)> = vec![];
                    let mut k = 0i128;
                    self.gather(cx, e, 1, w, &mut lf, &mut k)?;
                    let sg = |v: i128| -> i128 {
                        if w >= 128 {
                            return v;
                        }
                        let v = v & ((1i128 << w) - 1);
                        if v >> (w - 1) & 1 == 1 {
                            v - (1i128 << w)
                        } else {
                            v
                        }
                    };
                    k = sg(k);
                    let (mut lo, mut hi) = (Some(k), Some(k));
                    let mut terms = vec![self.ik(&k.to_string())];
                    for (t, co) in lf {
                        let co = sg(co);
                        if co == 0 {
                            continue;
                        }
                        let x = self.iv(cx, t)?;
                        let kk = self.ik(&co.to_string());
                        terms.push(self.iop(Z3_mk_mul, kk, x));
                        let (l, h) = (i128::try_from(cx.lo(t)).ok(), i128::try_from(cx.hi(t)).ok());
                        let (l, h) = if co > 0 { (l, h) } else { (h, l) };
                        let f = |acc: Option<i128>, v: Option<i128>| acc?.checked_add(v?.checked_mul(co)?);
                        lo = f(lo, l);
                        hi = f(hi, h);
                    }
                    let sum = self.keep(Z3_mk_add(c, terms.len() as c_uint, terms.as_ptr()));
                    match (lo, hi) {
                        (Some(l), Some(h)) if l >= 0 && h as u128 <= top => sum,
                        // one wrap at most
                        (Some(l), Some(h)) if w < 127 && l >= -(1i128 << w) && h >= 0 && h as u128 <= top => {
                            let (z, p) = (self.ik("0"), self.ipow(w));
                            let q = self.keep(Z3_mk_lt(c, sum, z));
                            let d = self.iop(Z3_mk_add, sum, p);
                            Z3_mk_ite(c, q, d, sum)
                        }
                        _ => self.imod(sum, w),
                    }
                }
                Op::Diff => {
                    let (x, y) = (self.iv(cx, n.a)?, self.iv(cx, n.b)?);
                    let s = self.iop(Z3_mk_sub, x, y);
                    let p = self.ipow(w);
                    let q = self.keep(Z3_mk_lt(c, x, y));
                    let d = self.iop(Z3_mk_add, s, p);
                    Z3_mk_ite(c, q, d, s)
                }
                Op::UDiv | Op::URem => {
                    let k = cx.is_const(n.b)?;
                    if k == 0 {
                        return None;
                    }
                    let x = self.iv(cx, n.a)?;
                    let kk = self.ik(&k.to_string());
                    if n.op == Op::UDiv {
                        Z3_mk_div(c, x, kk)
                    } else {
                        Z3_mk_mod(c, x, kk)
                    }
                }
                Op::Shl => {
                    let k = cx.is_const(n.b)? as u32;
                    if k >= w {
                        return None;
                    }
                    let x = self.iv(cx, n.a)?;
                    let p = self.ipow(k);
                    let m = self.iop(Z3_mk_mul, p, x);
                    if cx.hi(n.a) <= top >> k {
                        m
                    } else {
                        self.imod(m, w)
                    }
                }
                Op::LShr => {
                    let k = cx.is_const(n.b)? as u32;
                    if k >= w {
                        return None;
                    }
                    let x = self.iv(cx, n.a)?;
                    self.idiv(x, k)
                }
                Op::AShr => {
                    let k = cx.is_const(n.b)? as u32;
                    if k >= w || cx.hi(n.a) > top / 2 {
                        return None;
                    }
                    let x = self.iv(cx, n.a)?;
                    self.idiv(x, k)
                }
                Op::And => {
                    let (a, k) = if let Some(k) = cx.is_const(n.a) { (n.b, k) } else { (n.a, cx.is_const(n.b)?) };
                    if k == 0 {
                        return Some(self.ik("0"));
                    }
                    // one run of ones
                    let lo = k.trailing_zeros();
                    let run = k >> lo;
                    if run & run.wrapping_add(1) != 0 {
                        return None;
                    }
                    let len = 128 - run.leading_zeros();
                    let x = self.iv(cx, a)?;
                    let y = self.idiv(x, lo);
                    let y = if cx.hi(a) >> lo <= run { y } else { self.imod(y, len) };
                    let p = self.ipow(lo);
                    self.iop(Z3_mk_mul, p, y)
                }
                Op::Or | Op::Xor => {
                    let (ta, tb) = (tz(cx, n.a), tz(cx, n.b));
                    let fits = |h: u128, t: u32| t >= 128 || h >> t == 0;
                    if !fits(cx.hi(n.b), ta) && !fits(cx.hi(n.a), tb) {
                        return None;
                    }
                    let (x, y) = (self.iv(cx, n.a)?, self.iv(cx, n.b)?);
                    self.iop(Z3_mk_add, x, y)
                }
                _ => return None,
            })
        }
    }
    /// Adds f*e to a linear form modulo 2^w.
    fn gather(&mut self, cx: &Cx, e: E, f: i128, w: u32, lf: &mut Vec<(E, i128)>, k: &mut i128) -> Option<()> {
        let n = cx.nodes[e as usize];
        match n.op {
            Op::Const => *k = k.wrapping_add((n.k as i128).wrapping_mul(f)),
            Op::Add => {
                self.gather(cx, n.a, f, w, lf, k)?;
                self.gather(cx, n.b, f, w, lf, k)?;
            }
            Op::Sub => {
                self.gather(cx, n.a, f, w, lf, k)?;
                self.gather(cx, n.b, f.wrapping_neg(), w, lf, k)?;
            }
            Op::Mul => {
                let (a, c) = if let Some(c) = cx.is_const(n.a) { (n.b, c) } else { (n.a, cx.is_const(n.b)?) };
                self.gather(cx, a, f.wrapping_mul(c as i128), w, lf, k)?;
            }
            _ => match lf.iter_mut().find(|t| t.0 == e) {
                Some(t) => t.1 = t.1.wrapping_add(f),
                None => lf.push((e, f)),
            },
        }
        Some(())
    }
    fn ints(&mut self, cx: &Cx, cons: &[E], doms: &[(u32, Dom)]) -> Answer {
        let mut ps = vec![];
        for e in cons {
            match self.ib(cx, *e) {
                Some(p) => ps.push(p),
                None => return Answer::Unknown,
            }
        }
        let c = self.cx;
        unsafe {
            for (v, d) in doms {
                match d {
                    Dom::Set(sid) => {
                        let set = cx.sets[*sid as usize];
                        ps.push(self.iset(*v, &set));
                    }
                    Dom::Range(_, l, h) => {
                        let x = self.ivar(*v);
                        let (a, b) = (self.ik(&l.to_string()), self.ik(&h.to_string()));
                        ps.push(self.keep(Z3_mk_le(c, a, x)));
                        ps.push(self.keep(Z3_mk_le(c, x, b)));
                    }
                }
            }
            let s = Z3_mk_solver_for_logic(c, self.ilogic);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.mid);
            for p in ps {
                Z3_solver_assert(c, s, p);
            }
            let a = match Z3_solver_check(c, s) {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    let mut asg = vec![];
                    let mut ok = true;
                    for (v, _) in doms {
                        let x = self.ivar(*v);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, x, true, &mut r);
                        let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap();
                        match st.parse::<u128>() {
                            Ok(k) => {
                                out.push((*v, k));
                                if asg.len() <= *v as usize {
                                    asg.resize(*v as usize + 1, 0);
                                }
                                asg[*v as usize] = k;
                            }
                            Err(_) => ok = false,
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    // the model must satisfy the bit-vector terms
                    let mut memo = HashMap::new();
                    if ok && cons.iter().all(|e| cx.eval(*e, &asg, &mut memo) == 1) {
                        Answer::Sat(out)
                    } else {
                        eprintln!("integer model refuted");
                        Answer::Unknown
                    }
                }
                -1 => Answer::Unsat,
                _ => Answer::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            a
        }
    }
}

const TINY: u32 = 40_000;
const SMALL: u32 = 600_000;
const SOME: u32 = 6_000_000;
const MID: u32 = 20_000_000;

/// Low bits known to be zero.
fn tz(cx: &Cx, e: E) -> u32 {
    let n = cx.nodes[e as usize];
    match n.op {
        Op::Const => {
            if n.k == 0 {
                128
            } else {
                n.k.trailing_zeros()
            }
        }
        Op::Shl => match cx.is_const(n.b) {
            Some(k) => tz(cx, n.a) + k as u32,
            None => 0,
        },
        Op::Mul => tz(cx, n.a) + tz(cx, n.b),
        Op::ZExt | Op::SExt => tz(cx, n.a),
        Op::Concat => {
            if cx.is_const(n.b) == Some(0) {
                cx.w(n.b) + tz(cx, n.a)
            } else {
                tz(cx, n.b)
            }
        }
        Op::And => tz(cx, n.a).max(tz(cx, n.b)),
        _ => 0,
    }
    .min(128)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dom {
    Set(SetId),
    Range(u32, u128, u128),
}
