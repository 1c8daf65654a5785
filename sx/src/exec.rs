//! Path-exploring symbolic interpreter for the IR.
use crate::expr::*;
use crate::ir::{self, mask, sext, BinOp, CastOp, Module, Pred, Ty, TyId, CE};
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}
use Val::{A, C, S};

#[derive(Clone, Debug)]
pub enum LOp {
    R(u32),
    I(u128),
    V(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Int(u32),
    Vec(u32, u32),
    Agg(TyId),
    F32,
    F64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ov {
    UAdd,
    USub,
    UMul,
    SAdd,
    SSub,
    SMul,
}

#[derive(Clone, Debug, PartialEq)]
pub enum B {
    // intrinsics
    Nop,
    Memcpy,
    Memset,
    Overflow(Ov, u32),
    USubSat(u32),
    SSat(bool, u32),
    Fp(String, bool),
    UAddSat(u32),
    UMin(u32),
    UMax(u32),
    SMin(u32),
    SMax(u32),
    UCmp(u32),
    SCmp(u32),
    Abs(u32),
    Ctpop(u32),
    Ctlz(u32),
    Cttz(u32),
    Bswap(u32),
    Bitreverse(u32),
    Fshl(u32),
    Fshr(u32),
    ReduceAdd(u32),
    ReduceOr(u32),
    ReduceAnd(u32),
    LoadRelative,
    ReturnFalse,
    ReturnZero,
    Ident,
    Trap,
    Expect,
    // runtime
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Memcmp,
    Bcmp,
    Strlen,
    CMemchr,
    PanicFmt,
    PanicNamed(String),
    // libc
    ClockGettime,
    Open,
    Read,
    Close,
    Fstat,
    Stat,
    Lseek,
    Getcwd,
    Syscall,
    Errno,
    Write,
    RandomKeys,
    Redirect(String),
    // hashing
    HashNew,
    HashWrite,
    HashFinish,
    // harness interface
    SxByte,
    SxRange,
    SxChoose,
    SxAssume,
    SxAssert,
    SxCover,
    SxOut,
    SxConcretize,
    SxPanicOk,
    SxFile,
    SxHashMode,
    SxClock,
    SxLive,
    SxParam,
    Unknown(String),
}

#[derive(Clone, Debug)]
pub enum Target {
    F(u32),
    B(Rc<B>),
    Ind(LOp),
}

#[derive(Clone, Debug)]
pub enum LI {
    Alloca { dst: u32, size: u64, n: LOp },
    Load { dst: u32, k: K, size: u32, ptr: LOp },
    Store { k: K, size: u32, val: LOp, ptr: LOp },
    Gep { dst: u32, base: LOp, off: i64, terms: Vec<(LOp, u32, i64)> },
    Bin { op: BinOp, dst: u32, k: K, a: LOp, b: LOp },
    FNeg { dst: u32, k: K, a: LOp },
    Icmp { p: Pred, dst: u32, k: K, a: LOp, b: LOp },
    Fcmp { p: Rc<str>, dst: u32, k: K, a: LOp, b: LOp },
    Cast { op: CastOp, dst: u32, from: K, to: K, a: LOp },
    Select { dst: u32, vc: bool, k: K, c: LOp, a: LOp, b: LOp },
    Freeze { dst: u32, a: LOp },
    Call { dst: Option<u32>, ret: TyId, t: Target, args: Vec<LOp>, normal: Option<u32> },
    ExtractValue { dst: u32, a: LOp, idx: Vec<u32> },
    InsertValue { dst: u32, a: LOp, b: LOp, idx: Vec<u32> },
    ExtractElement { dst: u32, a: LOp, i: LOp },
    InsertElement { dst: u32, a: LOp, b: LOp, i: LOp },
    Shuffle { dst: u32, a: LOp, b: LOp, mask: Vec<i32>, n: usize },
    AtomicRmw { dst: u32, op: Rc<str>, k: K, size: u32, ptr: LOp, val: LOp },
    CmpXchg { dst: u32, k: K, size: u32, ptr: LOp, cmp: LOp, new: LOp },
    Br(u32),
    CondBr(LOp, u32, u32),
    Switch { w: u32, v: LOp, default: u32, cases: Vec<(u128, u32)>, map: Option<HashMap<u128, u32>> },
    Ret(Option<LOp>),
    Unreachable,
    Resume,
    LandingPad,
    Nop,
    Unsupported(String),
}

pub struct LPhi {
    dst: u32,
    inc: Vec<(u32, LOp)>,
}
pub struct LBlock {
    phis: Vec<LPhi>,
    insts: Vec<LI>,
}
pub struct LFunc {
    pub name: Rc<str>,
    pub pretty: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<LBlock>,
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<LFunc>,
    block: u32,
    ip: u32,
    prev: u32,
    regs: Vec<Val>,
    dst: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Input {
    Var(u32, E), // index, expression of the value handed to the harness
}

#[derive(Clone)]
pub struct OpenFile {
    name: Rc<str>,
    pos: usize,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub doms: Vec<SetId>,
    pub vinfo: Vec<Dom>,
    pub cons: Vec<E>,
    pub cons_supp: u128,
    pub model: Vec<u128>,
    pub known: Rc<HashMap<E, u128>>,
    pub facts: Rc<Facts>,
    pub pinned: Rc<HashMap<u32, u128>>,
    pub inputs: Vec<Input>,
    pub steps: u64,
    pub panic_ok: bool,
    pub out: Rc<Vec<Rc<Vec<Val>>>>,
    pub covers: Rc<BTreeSet<String>>,
    pub files: Rc<BTreeMap<String, Rc<Vec<Val>>>>,
    pub fds: Rc<BTreeMap<u64, OpenFile>>,
    pub hash_mode: u64,
    pub hash_slots: Rc<BTreeMap<Vec<u8>, u64>>,
    pub clock: u64,
    pub errno_addr: u64,
    pub forks: u32,
}

pub enum Stop {
    Panic(String),
    Mem(String),
    Assert(String),
    Infeasible,
    Done,
    Hang,
    Unsupported(String),
    Unknown(String),
}
type R<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u128>,
    pub stack: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<u128>,
    pub out: Vec<Vec<u8>>,
    pub end: String,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub refused: BTreeMap<String, u64>,
    pub infeasible: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts_const: u64,
    pub asserts_tab: u64,
    pub asserts_solver: u64,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub covers: BTreeSet<String>,
    pub errors: BTreeMap<String, u64>,
    pub max_steps: u64,
    pub max_vars: usize,
    pub kinds_seen: HashSet<String>,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_violations: usize,
    pub sample_every: u64,
    pub max_samples: usize,
    pub max_enum: usize,
    pub params: Vec<u64>,
    pub deadline: std::time::Instant,
    pub trace: bool,
}

pub struct Ex {
    pub m: Module,
    pub cx: Cx,
    pub solver: Solver,
    pub cfg: Cfg,
    pub rep: Report,
    fidx: HashMap<Rc<str>, u32>,
    lowered: Vec<Option<Rc<LFunc>>>,
    gaddr: HashMap<Rc<str>, u64>,
    pub faddr_funcs: HashMap<u64, u32>, // object id -> function
    base_mem: Mem,
    pub executed: BTreeSet<String>,
    pub work: Vec<State>,
    pretty: HashMap<Rc<str>, Rc<String>>,
    fast_n: u64,
    model_redirects: HashMap<String, String>,
}

pub fn demangle(s: &str) -> String {
    // legacy Rust mangling
    let Some(r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() && b[i].is_ascii_digit() {
        let mut n = 0usize;
        while i < b.len() && b[i].is_ascii_digit() {
            n = n * 10 + (b[i] - b'0') as usize;
            i += 1;
        }
        if i + n > b.len() {
            break;
        }
        let seg = &r[i..i + n];
        i += n;
        if n == 17 && seg.starts_with('h') && b.get(i) == Some(&b'E') {
            break;
        }
        let mut seg = seg;
        if seg.starts_with("_$") {
            seg = &seg[1..];
        }
        let mut o = String::new();
        let sb = seg.as_bytes();
        let mut j = 0;
        while j < sb.len() {
            if sb[j] == b'$' {
                if let Some(e) = seg[j + 1..].find('$') {
                    let code = &seg[j + 1..j + 1 + e];
                    let rep = match code {
                        "LT" => "<".to_string(),
                        "GT" => ">".to_string(),
                        "RF" => "&".to_string(),
                        "BP" => "*".to_string(),
                        "LP" => "(".to_string(),
                        "RP" => ")".to_string(),
                        "C" => ",".to_string(),
                        "SP" => "@".to_string(),
                        u if u.starts_with('u') => u32::from_str_radix(&u[1..], 16).ok().and_then(char::from_u32).map(|c| c.to_string()).unwrap_or_default(),
                        o => format!("${}$", o),
                    };
                    o.push_str(&rep);
                    j += e + 2;
                    continue;
                }
            }
            if sb[j] == b'.' && j + 1 < sb.len() && sb[j + 1] == b'.' {
                o.push_str("::");
                j += 2;
                continue;
            }
            o.push(sb[j] as char);
            j += 1;
        }
        parts.push(o);
    }
    parts.join("::")
}

fn bits_f(k: K, v: u128) -> f64 {
    match k {
        K::F32 => f32::from_bits(v as u32) as f64,
        _ => f64::from_bits(v as u64),
    }
}
fn f_bits(k: K, v: f64) -> u128 {
    match k {
        K::F32 => (v as f32).to_bits() as u128,
        _ => v.to_bits() as u128,
    }
}

fn concrete_bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let o = match op {
        BinOp::Add => return mask(a.wrapping_add(b), w),
        BinOp::Sub => return mask(a.wrapping_sub(b), w),
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => return a & b,
        BinOp::Or => return a | b,
        BinOp::Xor => return a ^ b,
        _ => unreachable!(),
    };
    apply(o, w, w, w, 0, a, b, 0)
}

fn concrete_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
    }
}

impl Ex {
    pub fn new(mut m: Module, cfg: Cfg, rlimit: u32) -> Ex {
        let mut fidx = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            fidx.insert(f.name.clone(), i as u32);
        }
        let n = m.funcs.len();
        let globals = std::mem::take(&mut m.globals);
        let mut ex = Ex {
            m,
            cx: Cx::new(),
            solver: Solver::new(rlimit),
            cfg,
            rep: Report::default(),
            fidx,
            lowered: vec![None; n],
            gaddr: HashMap::new(),
            faddr_funcs: HashMap::new(),
            base_mem: Mem::new(),
            executed: BTreeSet::new(),
            work: vec![],
            pretty: HashMap::new(),
            fast_n: 0,
            model_redirects: HashMap::new(),
        };
        let fnames: Vec<Rc<str>> = ex.m.funcs.iter().map(|f| f.name.clone()).collect();
        for n in &fnames {
            if n.starts_with("sxm_") {
                ex.model_redirects.insert(n[4..].to_string(), n.to_string());
            }
        }
        for (i, n) in fnames.iter().enumerate() {
            let a = ex.base_mem.alloc(vec![0; 16], Kind::Func(i as u32), true);
            ex.gaddr.insert(n.clone(), a);
            ex.faddr_funcs.insert(a >> SLOT, i as u32);
        }
        for g in &globals {
            let size = ex.m.types.size(g.ty);
            let a = if g.init.is_some() || g.name.starts_with("__rust_no_alloc") || g.name.starts_with("environ") {
                ex.base_mem.alloc(vec![0; size as usize], Kind::Global, g.is_const)
            } else {
                0 // extern_weak and other undefined data: null
            };
            ex.gaddr.insert(g.name.clone(), a);
        }
        for (n, c) in std::mem::take(&mut ex.m.aliases) {
            if let CE::Global(t) = &c {
                if let Some(&a) = ex.gaddr.get(t) {
                    ex.gaddr.insert(n.clone(), a);
                }
                if let Some(&f) = ex.fidx.get(t) {
                    ex.fidx.insert(n, f);
                }
            }
        }
        for g in &globals {
            if let Some(init) = &g.init {
                let a = ex.gaddr[&g.name];
                let mut buf = vec![0u8; ex.m.types.size(g.ty) as usize];
                ex.init_bytes(&mut buf, 0, g.ty, init);
                ex.base_mem.get_mut(a >> SLOT).unwrap().data = buf;
            }
        }
        ex
    }
    fn init_bytes(&self, buf: &mut [u8], off: usize, ty: TyId, c: &CE) {
        match c {
            CE::Zero | CE::Undef => {}
            CE::Bytes(b) => buf[off..off + b.len()].copy_from_slice(b),
            CE::Agg(es) => {
                for (i, (t, e)) in es.iter().enumerate() {
                    let (o, ft) = self.m.types.field(ty, i);
                    let _ = t;
                    self.init_bytes(buf, off + o as usize, ft, e);
                }
            }
            _ => {
                let v = self.ce_int(c);
                let n = self.m.types.store_size(ty) as usize;
                for i in 0..n {
                    buf[off + i] = (v >> (8 * i)) as u8;
                }
            }
        }
    }
    fn ce_int(&self, c: &CE) -> u128 {
        match c {
            CE::Int(v) => *v,
            CE::Zero | CE::Undef => 0,
            CE::Global(n) => *self.gaddr.get(n).unwrap_or_else(|| panic!("global {}", n)) as u128,
            CE::Gep(t, b, idx) => {
                let mut a = self.ce_int(b) as u64;
                let mut ty = *t;
                for (k, (it, i)) in idx.iter().enumerate() {
                    let w = self.m.types.bits(*it);
                    let iv = sext(mask(self.ce_int(i), w), w) as i64;
                    if k == 0 {
                        a = a.wrapping_add((iv as u64).wrapping_mul(self.m.types.size(ty)));
                    } else {
                        let (o, ft) = match self.m.types.get(ty) {
                            Ty::Struct(..) => self.m.types.field(ty, iv as usize),
                            Ty::Array(_, e) | Ty::Vector(_, e) => ((iv as u64).wrapping_mul(self.m.types.size(*e)), *e),
                            _ => panic!("gep const"),
                        };
                        a = a.wrapping_add(o);
                        ty = ft;
                    }
                }
                a as u128
            }
            CE::Cast(op, _, x, to) => {
                let v = self.ce_int(x);
                let w = self.m.types.bits(*to);
                match &**op {
                    "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "addrspacecast" => mask(v, w),
                    o => panic!("const cast {}", o),
                }
            }
            CE::Bin(op, t, a, b) => {
                let w = self.m.types.bits(*t);
                let (x, y) = (self.ce_int(a), self.ce_int(b));
                mask(
                    match &**op {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "xor" => x ^ y,
                        "and" => x & y,
                        "or" => x | y,
                        "mul" => x.wrapping_mul(y),
                        o => panic!("const {}", o),
                    },
                    w,
                )
            }
            o => panic!("const int {:?}", o),
        }
    }
    fn kind(&self, t: TyId) -> K {
        match self.m.types.get(t) {
            Ty::Int(n) => K::Int(*n),
            Ty::Ptr => K::Int(64),
            Ty::Float => K::F32,
            Ty::Double => K::F64,
            Ty::Vector(n, e) => K::Vec(*n, self.m.types.bits(*e)),
            _ => K::Agg(t),
        }
    }
    fn zero_val(&self, t: TyId) -> Val {
        match self.m.types.get(t) {
            Ty::Struct(fs, _) => A(Rc::new(fs.iter().map(|f| self.zero_val(*f)).collect())),
            Ty::Array(n, e) => {
                let z = self.zero_val(*e);
                A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vector(n, _) => A(Rc::new(vec![C(0); *n as usize])),
            _ => C(0),
        }
    }
    fn ce_val(&self, t: TyId, c: &CE) -> Val {
        match c {
            CE::Zero | CE::Undef => self.zero_val(t),
            CE::Agg(es) => A(Rc::new(es.iter().map(|(t, e)| self.ce_val(*t, e)).collect())),
            CE::Bytes(b) => A(Rc::new(b.iter().map(|x| C(*x as u128)).collect())),
            CE::Splat(et, e) => {
                let n = match self.m.types.get(t) {
                    Ty::Vector(n, _) => *n,
                    _ => 1,
                };
                let v = self.ce_val(*et, e);
                A(Rc::new(vec![v; n as usize]))
            }
            _ => {
                let w = self.m.types.bits(t);
                C(mask(self.ce_int(c), w))
            }
        }
    }
    fn lop(&self, o: &ir::Operand) -> LOp {
        match o {
            ir::Operand::Reg(r) => LOp::R(*r),
            ir::Operand::Const(t, c) => match self.ce_val(*t, c) {
                C(v) => LOp::I(v),
                v => LOp::V(v),
            },
        }
    }
    pub fn pretty_name(&mut self, n: &Rc<str>) -> Rc<String> {
        if let Some(p) = self.pretty.get(n) {
            return p.clone();
        }
        let p = Rc::new(demangle(n));
        self.pretty.insert(n.clone(), p.clone());
        p
    }
    fn builtin(&mut self, name: &Rc<str>) -> Option<B> {
        let n: &str = name;
        let iw = |s: &str| -> u32 {
            let l = s.rsplit('.').next().unwrap();
            if let Some(x) = l.strip_prefix('i') {
                x.parse().unwrap_or(64)
            } else if let Some(v) = l.strip_prefix('v') {
                v.split('i').nth(1).and_then(|x| x.parse().ok()).unwrap_or(64)
            } else {
                64
            }
        };
        if let Some(r) = n.strip_prefix("llvm.") {
            let w = iw(n);
            let b = if r.starts_with("memcpy") || r.starts_with("memmove") {
                B::Memcpy
            } else if r.starts_with("memset") {
                B::Memset
            } else if r.contains(".with.overflow") {
                B::Overflow(
                    match &r[..4] {
                        "uadd" => Ov::UAdd,
                        "usub" => Ov::USub,
                        "umul" => Ov::UMul,
                        "sadd" => Ov::SAdd,
                        "ssub" => Ov::SSub,
                        _ => Ov::SMul,
                    },
                    w,
                )
            } else if r.starts_with("sadd.sat") || r.starts_with("ssub.sat") {
                B::SSat(r.starts_with("sadd"), w)
            } else if let Some(f) = ["fabs", "floor", "ceil", "trunc", "roundeven", "rint", "nearbyint", "round", "sqrt", "copysign", "powi", "pow", "fmuladd", "fma", "minnum", "maxnum", "log10", "log2", "log", "exp2", "exp", "fptoui.sat", "fptosi.sat"].iter().find(|f| r.starts_with(&format!("{}.", f))) {
                B::Fp(if f.contains("sat") { r.to_string() } else { f.to_string() }, r.contains("f32"))
            } else if r.starts_with("usub.sat") {
                B::USubSat(w)
            } else if r.starts_with("uadd.sat") {
                B::UAddSat(w)
            } else if r.starts_with("umin") {
                B::UMin(w)
            } else if r.starts_with("umax") {
                B::UMax(w)
            } else if r.starts_with("smin") {
                B::SMin(w)
            } else if r.starts_with("smax") {
                B::SMax(w)
            } else if r.starts_with("ucmp") {
                B::UCmp(w)
            } else if r.starts_with("scmp") {
                B::SCmp(w)
            } else if r.starts_with("abs") {
                B::Abs(w)
            } else if r.starts_with("ctpop") {
                B::Ctpop(w)
            } else if r.starts_with("ctlz") {
                B::Ctlz(w)
            } else if r.starts_with("cttz") {
                B::Cttz(w)
            } else if r.starts_with("bswap") {
                B::Bswap(w)
            } else if r.starts_with("bitreverse") {
                B::Bitreverse(w)
            } else if r.starts_with("fshl") {
                B::Fshl(w)
            } else if r.starts_with("fshr") {
                B::Fshr(w)
            } else if r.starts_with("vector.reduce.add") {
                B::ReduceAdd(w)
            } else if r.starts_with("vector.reduce.or") {
                B::ReduceOr(w)
            } else if r.starts_with("vector.reduce.and") {
                B::ReduceAnd(w)
            } else if r.starts_with("load.relative") {
                B::LoadRelative
            } else if r.starts_with("is.constant") {
                B::ReturnFalse
            } else if r.starts_with("expect") {
                B::Expect
            } else if r.starts_with("threadlocal.address") || r.starts_with("launder") || r.starts_with("strip.inv") || r.starts_with("ptrmask") {
                B::Ident
            } else if r.starts_with("trap") || r.starts_with("ubsantrap") {
                B::Trap
            } else if r.starts_with("lifetime") || r.starts_with("assume") || r.starts_with("experimental.noalias") || r.starts_with("dbg") || r.starts_with("x86.sse2.pause") || r.starts_with("prefetch") || r.starts_with("donothing") || r.starts_with("invariant") {
                B::Nop
            } else {
                B::Unknown(n.to_string())
            };
            return Some(b);
        }
        let b = match n {
            "__rust_alloc" | "malloc" => B::Alloc,
            "__rust_alloc_zeroed" => B::AllocZeroed,
            "__rust_dealloc" | "free" => B::Dealloc,
            "__rust_realloc" => B::Realloc,
            "memcmp" => B::Memcmp,
            "bcmp" => B::Bcmp,
            "memcpy" | "memmove" => B::Memcpy,
            "memset" => B::Memset,
            "strlen" => B::Strlen,
            "memchr" => B::CMemchr,
            "pow" | "log10" | "log2" | "log" | "exp" | "fabs" | "floor" | "ceil" | "round" | "trunc" | "sqrt" => B::Fp(n.to_string(), false),
            "abort" => B::PanicNamed("abort".into()),
            "__rust_alloc_error_handler" => B::PanicNamed("alloc error".into()),
            "clock_gettime" => B::ClockGettime,
            "open64" | "open" => B::Open,
            "read" => B::Read,
            "close" => B::Close,
            "fstat64" | "fstat" => B::Fstat,
            "stat64" | "stat" | "lstat64" => B::Stat,
            "lseek64" | "lseek" => B::Lseek,
            "getcwd" => B::Getcwd,
            "fcntl" | "fcntl64" => B::ReturnZero,
            "syscall" => B::Syscall,
            "getenv" => B::ReturnZero,
            "__errno_location" => B::Errno,
            "write" => B::Write,
            "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" => B::ReturnZero,
            "sx_byte" => B::SxByte,
            "sx_range" => B::SxRange,
            "sx_choose" => B::SxChoose,
            "sx_assume" => B::SxAssume,
            "sx_assert" => B::SxAssert,
            "sx_cover" => B::SxCover,
            "sx_out" => B::SxOut,
            "sx_concretize" => B::SxConcretize,
            "sx_panic_ok" => B::SxPanicOk,
            "sx_file" => B::SxFile,
            "sx_hash_mode" => B::SxHashMode,
            "sx_clock" => B::SxClock,
            "sx_live" => B::SxLive,
            "sx_param" => B::SxParam,
            _ => {
                let p = self.pretty_name(name);
                let p: &str = &p;
                if let Some(r) = self.redirect(p) {
                    B::Redirect(r)
                } else if p == "core::panicking::panic_fmt" {
                    B::PanicFmt
                } else if p.starts_with("core::panicking::panic_nounwind") || p.starts_with("core::panicking::panic_cannot") || p.starts_with("core::panicking::panic_misaligned") || p.starts_with("core::panicking::panic_null") || p.starts_with("core::panicking::panic_in_cleanup") || p.starts_with("core::panicking::unreachable_display") {
                    B::PanicNamed(p.to_string())
                } else if p.starts_with("std::panicking::begin_panic") || p.starts_with("std::panicking::rust_panic") || p == "rust_begin_unwind" || p.starts_with("core::result::unwrap_failed") || p.starts_with("core::panicking::assert_failed") || p.starts_with("core::option::expect_failed") {
                    B::PanicNamed(p.to_string())
                } else if p.starts_with("core::str::slice_error_fail") || p.starts_with("alloc::raw_vec::handle_error") || p.starts_with("alloc::raw_vec::capacity_overflow") || p.starts_with("alloc::alloc::handle_alloc_error") || p.contains("hashbrown::raw::Fallibility::") || p.starts_with("core::cell::panic_already") || p.starts_with("std::process::abort") {
                    B::PanicNamed(p.to_string())
                } else if p == "std::io::stdio::_print" || p == "std::io::stdio::_eprint" {
                    B::Nop
                } else if p.ends_with("hashmap_random_keys") {
                    B::RandomKeys
                } else if p == "<std::hash::random::RandomState as core::hash::BuildHasher>::build_hasher" {
                    B::HashNew
                } else if (p.contains("core::hash::sip::Hasher<S>") || p.contains("DefaultHasher")) && p.contains(" as core::hash::Hasher>::write") {
                    B::HashWrite
                } else if p.contains("DefaultHasher as core::hash::Hasher>::finish") || p.contains("core::hash::sip::Hasher<S> as core::hash::Hasher>::finish") {
                    B::HashFinish
                } else {
                    return None;
                }
            }
        };
        Some(b)
    }
    /// Word-at-a-time searches of the standard library are replaced by byte loops of the harness crate.
    fn redirect(&self, p: &str) -> Option<String> {
        let k = match p {
            "core::slice::memchr::memchr_aligned" | "core::slice::memchr::memchr" | "core::slice::memchr::memchr_naive" => "memchr",
            "core::slice::memchr::memrchr" => "memrchr",
            _ => return None,
        };
        self.model_redirects.get(k).cloned()
    }
    fn target(&mut self, name: &Rc<str>) -> Target {
        if let Some(b) = self.builtin(name) {
            if let B::Redirect(r) = &b {
                return Target::F(self.fidx[r.as_str()]);
            }
            return Target::B(Rc::new(b));
        }
        match self.fidx.get(name) {
            Some(&i) if self.m.funcs[i as usize].body.is_some() => Target::F(i),
            _ => Target::B(Rc::new(B::Unknown(name.to_string()))),
        }
    }
    pub fn lower(&mut self, fi: u32) -> Rc<LFunc> {
        if let Some(f) = &self.lowered[fi as usize] {
            return f.clone();
        }
        let f = ir::parse_body(&mut self.m, fi as usize);
        let mut blocks = vec![];
        for b in &f.blocks {
            let phis = b.phis.iter().map(|p| LPhi { dst: p.dst, inc: p.inc.iter().map(|(b, o)| (*b, self.lop(o))).collect() }).collect();
            let mut insts = vec![];
            for i in &b.insts {
                let l = self.lower_inst(i);
                insts.push(l);
            }
            blocks.push(LBlock { phis, insts });
        }
        let pretty = self.pretty_name(&f.name).to_string();
        self.executed.insert(pretty.clone());
        let lf = Rc::new(LFunc { name: f.name.clone(), pretty, nregs: f.nregs, params: f.params.iter().map(|p| p.1).collect(), blocks });
        self.lowered[fi as usize] = Some(lf.clone());
        lf
    }
    fn lower_inst(&mut self, i: &ir::Inst) -> LI {
        use ir::Inst as I;
        match i {
            I::Alloca { dst, ty, n, .. } => LI::Alloca { dst: *dst, size: self.m.types.size(*ty), n: self.lop(n) },
            I::Load { dst, ty, ptr } => LI::Load { dst: *dst, k: self.kind(*ty), size: self.m.types.store_size(*ty) as u32, ptr: self.lop(ptr) },
            I::Store { ty, val, ptr } => LI::Store { k: self.kind(*ty), size: self.m.types.store_size(*ty) as u32, val: self.lop(val), ptr: self.lop(ptr) },
            I::Gep { dst, base, off, terms } => {
                LI::Gep { dst: *dst, base: self.lop(base), off: *off, terms: terms.iter().map(|(o, t, s)| (self.lop(o), self.m.types.bits(*t), *s)).collect() }
            }
            I::Bin { op, dst, ty, a, b } => LI::Bin { op: *op, dst: *dst, k: self.kind(*ty), a: self.lop(a), b: self.lop(b) },
            I::FNeg { dst, ty, a } => LI::FNeg { dst: *dst, k: self.kind(*ty), a: self.lop(a) },
            I::Icmp { p, dst, ty, a, b } => LI::Icmp { p: *p, dst: *dst, k: self.kind(*ty), a: self.lop(a), b: self.lop(b) },
            I::Fcmp { p, dst, ty, a, b } => LI::Fcmp { p: p.clone(), dst: *dst, k: self.kind(*ty), a: self.lop(a), b: self.lop(b) },
            I::Cast { op, dst, from, to, a } => LI::Cast { op: *op, dst: *dst, from: self.kind(*from), to: self.kind(*to), a: self.lop(a) },
            I::Select { dst, cty, ty, c, a, b } => {
                let vc = matches!(self.m.types.get(*cty), Ty::Vector(..));
                LI::Select { dst: *dst, vc, k: self.kind(*ty), c: self.lop(c), a: self.lop(a), b: self.lop(b) }
            }
            I::Freeze { dst, a } => LI::Freeze { dst: *dst, a: self.lop(a) },
            I::Call { dst, ret, callee, args, normal } => {
                let t = match callee {
                    ir::Callee::Direct(n) => self.target(n),
                    ir::Callee::Indirect(o) => Target::Ind(self.lop(o)),
                    ir::Callee::Asm => Target::B(Rc::new(B::Nop)),
                };
                LI::Call { dst: *dst, ret: *ret, t, args: args.iter().map(|(_, o)| self.lop(o)).collect(), normal: *normal }
            }
            I::ExtractValue { dst, a, idx, .. } => LI::ExtractValue { dst: *dst, a: self.lop(a), idx: idx.clone() },
            I::InsertValue { dst, a, b, idx, .. } => LI::InsertValue { dst: *dst, a: self.lop(a), b: self.lop(b), idx: idx.clone() },
            I::ExtractElement { dst, a, i, .. } => LI::ExtractElement { dst: *dst, a: self.lop(a), i: self.lop(i) },
            I::InsertElement { dst, a, b, i, .. } => LI::InsertElement { dst: *dst, a: self.lop(a), b: self.lop(b), i: self.lop(i) },
            I::Shuffle { dst, ty, a, b, mask } => {
                let n = match self.m.types.get(*ty) {
                    Ty::Vector(n, _) => *n as usize,
                    _ => 0,
                };
                LI::Shuffle { dst: *dst, a: self.lop(a), b: self.lop(b), mask: mask.clone(), n }
            }
            I::AtomicRmw { dst, op, ty, ptr, val } => LI::AtomicRmw { dst: *dst, op: op.clone(), k: self.kind(*ty), size: self.m.types.store_size(*ty) as u32, ptr: self.lop(ptr), val: self.lop(val) },
            I::CmpXchg { dst, ty, ptr, cmp, new } => LI::CmpXchg { dst: *dst, k: self.kind(*ty), size: self.m.types.store_size(*ty) as u32, ptr: self.lop(ptr), cmp: self.lop(cmp), new: self.lop(new) },
            I::Br(b) => LI::Br(*b),
            I::CondBr(c, a, b) => LI::CondBr(self.lop(c), *a, *b),
            I::Switch { ty, v, default, cases } => {
                let map = if cases.len() > 6 { Some(cases.iter().copied().collect()) } else { None };
                LI::Switch { w: self.m.types.bits(*ty), v: self.lop(v), default: *default, cases: cases.clone(), map }
            }
            I::Ret(None) => LI::Ret(None),
            I::Ret(Some((_, o))) => LI::Ret(Some(self.lop(o))),
            I::Unreachable => LI::Unreachable,
            I::Resume => LI::Resume,
            I::LandingPad { .. } => LI::LandingPad,
            I::Nop => LI::Nop,
            I::Unsupported(s) => LI::Unsupported(s.clone()),
        }
    }

    // ---- states -------------------------------------------------------------------------
    pub fn start(&mut self, entry: &str) -> State {
        let fi = *self.fidx.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.lower(fi);
        let mut mem = self.base_mem.clone();
        let errno_addr = mem.alloc(vec![0; 4], Kind::Global, false);
        let fr = Frame { regs: vec![C(0); f.nregs as usize], func: f, block: 0, ip: 0, prev: 0, dst: None, normal: None, allocas: vec![] };
        State {
            frames: vec![fr],
            mem,
            doms: vec![],
            vinfo: vec![],
            cons: vec![],
            cons_supp: 0,
            model: vec![],
            known: Rc::new(HashMap::new()),
            facts: Rc::new(HashMap::new()),
            pinned: Rc::new(HashMap::new()),
            inputs: vec![],
            steps: 0,
            panic_ok: false,
            out: Rc::new(vec![]),
            covers: Rc::new(BTreeSet::new()),
            files: Rc::new(BTreeMap::new()),
            fds: Rc::new(BTreeMap::new()),
            hash_mode: 0,
            hash_slots: Rc::new(BTreeMap::new()),
            clock: 1_700_000_000,
            errno_addr,
            forks: 0,
        }
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            C(k) => self.cx.cst(*k, w),
            S(e) => {
                debug_assert_eq!(self.cx.w(*e), w);
                *e
            }
            A(_) => panic!("aggregate as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        match self.cx.is_const(e) {
            Some(k) => C(k),
            None => S(e),
        }
    }
    fn simp(&self, st: &State, v: Val) -> Val {
        if let S(e) = v {
            if let Some(k) = st.known.get(&e) {
                return C(*k);
            }
        }
        v
    }

    fn slice(&self, st: &State, e: E) -> (Vec<E>, u128) {
        let mut supp = self.cx.supp(e);
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![e];
        if supp & st.cons_supp != 0 {
            loop {
                let mut ch = false;
                for (i, c) in st.cons.iter().enumerate() {
                    if !used[i] && self.cx.supp(*c) & supp != 0 {
                        used[i] = true;
                        supp |= self.cx.supp(*c);
                        out.push(*c);
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        (out, supp)
    }
    /// A model of path condition and e, or None when there is none. Always asks the solver.
    fn ask(&mut self, st: &State, e: E) -> R<Option<Vec<u128>>> {
        if let Some(k) = self.cx.is_const(e) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        let (cons, supp) = self.slice(st, e);
        let mut doms = vec![];
        for i in 0..st.doms.len() {
            if supp >> i & 1 == 1 {
                let d = match st.vinfo[i] {
                    Dom::Set(_) => Dom::Set(st.doms[i]),
                    d => d,
                };
                doms.push((i as u32, d));
            }
        }
        match self.solver.check(&self.cx, &cons, &doms) {
            Answer::Unsat => Ok(None),
            Answer::Unknown => Err(Stop::Unknown("solver gave up".into())),
            Answer::Sat(m) => {
                let mut md = st.model.clone();
                for (i, v) in m {
                    md[i as usize] = v;
                }
                Ok(Some(md))
            }
        }
    }
    /// Feasibility of e on the path, with the value-set shortcut for predicates over one input.
    fn feasible(&mut self, st: &State, e: E) -> R<Option<Vec<u128>>> {
        let n = self.cx.nodes[e as usize];
        match n.op {
            Op::Const => return Ok(if n.k == 1 { Some(st.model.clone()) } else { None }),
            Op::Member => {
                let d = self.cx.sets[st.doms[n.a as usize] as usize];
                let s = set_and(&d, &self.cx.sets[n.b as usize]);
                let free = st.cons_supp >> n.a & 1 == 0;
                if set_empty(&s) || free {
                    self.solver.stats.fast += 1;
                    self.fast_n += 1;
                    let r = if set_empty(&s) {
                        None
                    } else {
                        let v = set_iter(&s).next().unwrap();
                        let mut m = st.model.clone();
                        m[n.a as usize] = v as u128;
                        Some(m)
                    };
                    if self.fast_n % 512 == 0 {
                        // audit: the solver must agree
                        self.solver.stats.audited += 1;
                        let q = self.ask(st, e)?;
                        if q.is_some() != r.is_some() {
                            return Err(Stop::Unsupported("value-set shortcut disagrees with the solver".into()));
                        }
                    }
                    return Ok(r);
                }
            }
            _ => {}
        }
        if let Some(k) = st.known.get(&e) {
            return Ok(if *k == 1 { Some(st.model.clone()) } else { None });
        }
        self.ask(st, e)
    }
    fn assume(&mut self, st: &mut State, e: E) {
        let n = self.cx.nodes[e as usize];
        match n.op {
            Op::Const => {}
            Op::And => {
                self.assume(st, n.a);
                self.assume(st, n.b);
                Rc::make_mut(&mut st.known).insert(e, 1);
            }
            Op::Member => {
                let d = self.cx.sets[st.doms[n.a as usize] as usize];
                let s = set_and(&d, &self.cx.sets[n.b as usize]);
                st.doms[n.a as usize] = self.cx.set(s);
                let mut it = set_iter(&s);
                if let (Some(v), None) = (it.next(), it.next()) {
                    Rc::make_mut(&mut st.pinned).insert(n.a, v as u128);
                }
            }
            _ => {
                if n.op == Op::Not {
                    let ni = self.cx.nodes[n.a as usize];
                    if ni.op == Op::Or {
                        let x = self.cx.not(ni.a);
                        let y = self.cx.not(ni.b);
                        self.assume(st, x);
                        self.assume(st, y);
                        Rc::make_mut(&mut st.known).insert(n.a, 0);
                        return;
                    }
                }
                st.cons.push(e);
                st.cons_supp |= self.cx.supp(e);
                if n.op == Op::Ult {
                    self.cx.fact(&mut st.facts, n.b, n.a, 1);
                } else if n.op == Op::Not {
                    let ni = self.cx.nodes[n.a as usize];
                    if ni.op == Op::Ult {
                        self.cx.fact(&mut st.facts, ni.a, ni.b, 0);
                    }
                }
                let ne = self.cx.not(e);
                let kn = Rc::make_mut(&mut st.known);
                kn.insert(e, 1);
                kn.insert(ne, 0);
                if n.op == Op::Eq {
                    if let Some(k) = self.cx.is_const(n.b) {
                        kn.insert(n.a, k);
                        // wider views of the same value
                        for w in [16, 32, 64, 128] {
                            if w > self.cx.w(n.a) {
                                let z = self.cx.zext(n.a, w);
                                Rc::make_mut(&mut st.known).insert(z, k);
                            }
                        }
                    }
                }
            }
        }
    }
    fn evalm(&self, st: &State, e: E) -> u128 {
        self.cx.eval(e, &st.model, &mut HashMap::new())
    }
    fn push_fork(&mut self, st: &State, e: E, model: Vec<u128>) {
        let mut c = st.clone();
        c.model = model;
        c.forks += 1;
        self.assume(&mut c, e);
        self.rep.forks += 1;
        self.work.push(c);
    }
    fn simplify(&mut self, st: &State, e: E) -> E {
        if self.cx.nodes[e as usize].op == Op::Member || st.cons.is_empty() && st.known.is_empty() {
            return e;
        }
        let r = self.cx.simplify(e, &st.known, &st.doms, false, &mut HashMap::new());
        if self.cx.is_const(r).is_none() {
            let s = self.cx.simplify(r, &st.known, &st.doms, true, &mut HashMap::new());
            if self.cx.is_const(s).is_some() {
                return s;
            }
        }
        r
    }
    /// Decides a condition on this path, forking when both outcomes are possible.
    fn decide(&mut self, st: &mut State, v: &Val) -> R<bool> {
        let e = match v {
            C(k) => return Ok(*k & 1 == 1),
            S(e) => *e,
            A(_) => return Err(Stop::Unsupported("aggregate condition".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k == 1);
        }
        let e0 = e;
        let e = self.simplify(st, e);
        if let Some(k) = self.cx.is_const(e) {
            Rc::make_mut(&mut st.known).insert(e0, k);
            return Ok(k == 1);
        }
        let b = self.evalm(st, e) == 1;
        let ne = self.cx.not(e);
        let (this, other) = if b { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(st, other)? {
            self.push_fork(st, other, m);
        }
        self.assume(st, this);
        Ok(b)
    }
    /// Makes a value concrete, forking over the other feasible values.
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u128> {
        let e = match v {
            C(k) => return Ok(*k),
            S(e) => *e,
            A(_) => return Err(Stop::Unsupported("aggregate".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let e2 = self.cx.refine(e, &st.doms);
        if let Some(k) = self.cx.is_const(e2) {
            return Ok(k);
        }
        let k = self.evalm(st, e);
        let w = self.cx.w(e);
        let kc = self.cx.cst(k, w);
        let eq = self.cx.eq(e, kc);
        let ne = self.cx.not(eq);
        if let Some(m) = self.feasible(st, ne)? {
            if st.forks > 100_000 {
                return Err(Stop::Unsupported("too many forks on one path".into()));
            }
            self.push_fork(st, ne, m);
        }
        self.assume(st, eq);
        if self.cx.meta[e as usize].tab.is_none() {
            Rc::make_mut(&mut st.known).insert(e, k);
        }
        Ok(k)
    }

    // ---- memory -------------------------------------------------------------------------
    fn check(&self, st: &State, addr: u64, n: u64, write: bool) -> R<(u64, usize)> {
        let id = addr >> SLOT;
        let off = (addr & ((1 << SLOT) - 1)) as usize;
        match st.mem.get(id) {
            None => Err(Stop::Mem(if id == 0 {
                format!("{} through null or dangling pointer {:#x}", if write { "write" } else { "read" }, addr)
            } else if st.mem.existed(id) {
                format!("{} of freed memory", if write { "write" } else { "read" })
            } else {
                format!("{} through wild pointer {:#x}", if write { "write" } else { "read" }, addr)
            })),
            Some(o) => {
                if off as u64 + n > o.data.len() as u64 {
                    return Err(Stop::Mem(format!("{} past the end of a {:?} object ({}+{} of {})", if write { "write" } else { "read" }, o.kind, off, n, o.data.len())));
                }
                if write && o.ro {
                    return Err(Stop::Mem("write to constant".into()));
                }
                Ok((id, off))
            }
        }
    }
    fn load_int(&mut self, st: &State, addr: u64, n: u32) -> R<Val> {
        let (id, off) = self.check(st, addr, n as u64, false)?;
        let o = st.mem.get(id).unwrap();
        let d = &o.data[off..off + n as usize];
        let any = match &o.sym {
            None => false,
            Some(s) => s[off..off + n as usize].iter().any(|x| *x != 0),
        };
        if !any {
            let mut buf = [0u8; 16];
            buf[..n as usize].copy_from_slice(d);
            return Ok(C(u128::from_le_bytes(buf)));
        }
        let s = o.sym.as_ref().unwrap()[off..off + n as usize].to_vec();
        let d = d.to_vec();
        let mut acc: Option<E> = None;
        for i in 0..n as usize {
            let b = if s[i] != 0 { self.cx.refine(s[i], &st.doms) } else { self.cx.cst(d[i] as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(a) => self.cx.concat(b, a),
            });
        }
        let e = acc.unwrap();
        let v = self.v(e);
        Ok(self.simp(st, v))
    }
    fn store_int(&mut self, st: &mut State, addr: u64, n: u32, v: &Val) -> R<()> {
        let (id, off) = self.check(st, addr, n as u64, true)?;
        match v {
            C(k) => {
                let o = st.mem.get_mut(id).unwrap();
                o.data[off..off + n as usize].copy_from_slice(&k.to_le_bytes()[..n as usize]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n as usize].fill(0);
                }
            }
            S(e) => {
                let mut w = self.cx.w(*e);
                let mut e = *e;
                if w < n * 8 {
                    e = self.cx.zext(e, n * 8);
                    w = n * 8;
                }
                let _ = w;
                let bs: Vec<E> = (0..n).map(|i| self.cx.extract(e, i * 8, 8)).collect();
                let ks: Vec<Option<u128>> = bs.iter().map(|b| self.cx.is_const(*b)).collect();
                let o = st.mem.get_mut(id).unwrap();
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n as usize {
                    match ks[i] {
                        Some(k) => {
                            s[off + i] = 0;
                            o.data[off + i] = k as u8;
                        }
                        None => s[off + i] = bs[i],
                    }
                }
            }
            A(_) => return Err(Stop::Unsupported("aggregate store".into())),
        }
        Ok(())
    }
    fn load_k(&mut self, st: &State, addr: u64, k: K, size: u32) -> R<Val> {
        match k {
            K::Int(w) => {
                let v = self.load_int(st, addr, size)?;
                if w == size * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    C(x) => C(mask(x, w)),
                    S(e) => {
                        let x = self.cx.extract(e, 0, w);
                        self.v(x)
                    }
                    a => a,
                })
            }
            K::F32 | K::F64 => self.load_int(st, addr, size),
            K::Vec(n, ew) => {
                if ew % 8 != 0 {
                    return Err(Stop::Unsupported("bit vector load".into()));
                }
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n {
                    o.push(self.load_int(st, addr + (i * ew / 8) as u64, ew / 8)?);
                }
                Ok(A(Rc::new(o)))
            }
            K::Agg(t) => {
                let n = match self.m.types.get(t) {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Array(n, _) => *n as usize,
                    _ => return Err(Stop::Unsupported("load type".into())),
                };
                let mut o = vec![];
                for i in 0..n {
                    let (off, ft) = self.m.types.field(t, i);
                    let (fk, fs) = (self.kind(ft), self.m.types.store_size(ft) as u32);
                    o.push(self.load_k(st, addr + off, fk, fs)?);
                }
                Ok(A(Rc::new(o)))
            }
        }
    }
    fn store_k(&mut self, st: &mut State, addr: u64, k: K, size: u32, v: &Val) -> R<()> {
        match k {
            K::Int(_) | K::F32 | K::F64 => self.store_int(st, addr, size, v),
            K::Vec(n, ew) => {
                let A(vs) = v else { return Err(Stop::Unsupported("vector store".into())) };
                for i in 0..n {
                    self.store_int(st, addr + (i * ew / 8) as u64, ew / 8, &vs[i as usize])?;
                }
                Ok(())
            }
            K::Agg(t) => {
                let A(vs) = v else { return Err(Stop::Unsupported("aggregate store".into())) };
                for i in 0..vs.len() {
                    let (off, ft) = self.m.types.field(t, i);
                    let (fk, fs) = (self.kind(ft), self.m.types.store_size(ft) as u32);
                    self.store_k(st, addr + off, fk, fs, &vs[i])?;
                }
                Ok(())
            }
        }
    }
    /// Load through a symbolic address into constant data: a table lookup.
    fn load_sym(&mut self, st: &mut State, e: E, k: K, size: u32) -> R<Option<Val>> {
        let K::Int(w) = k else { return Ok(None) };
        let (lo, hi) = match self.cx.tab_values(e, &st.doms) {
            Some(v) => (v[0] as u64, *v.last().unwrap() as u64),
            None => (self.cx.lo(e) as u64, self.cx.hi(e) as u64),
        };
        if lo >> SLOT != hi >> SLOT || hi - lo > 8192 {
            return Ok(None);
        }
        let Some(o) = st.mem.get(lo >> SLOT) else { return Ok(None) };
        if !o.ro && o.sym.is_some() {
            return Ok(None);
        }
        let off = (lo & 0xff_ffff) as usize;
        let end = (hi & 0xff_ffff) as usize + size as usize;
        if end > o.data.len() {
            return Ok(None);
        }
        let mut table = Vec::new();
        for i in off..=(hi & 0xff_ffff) as usize {
            let mut b = [0u8; 16];
            b[..size as usize].copy_from_slice(&o.data[i..i + size as usize]);
            table.push(mask(u128::from_le_bytes(b), w));
        }
        // stride: all addresses congruent?
        let base = self.cx.cst(lo as u128, 64);
        let mut idx = self.cx.sub(e, base);
        if let Some(nw) = Some(128 - (hi as u128 - lo as u128).leading_zeros()) {
            idx = self.cx.extract(idx, 0, nw.max(1));
        }
        let x = self.cx.lookup(idx, table, w);
        Ok(Some(self.v(x)))
    }
    fn bytes_at(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.check(st, addr, n as u64, false)?;
        let o = st.mem.get(id).unwrap();
        let d = o.data[off..off + n].to_vec();
        let s = o.sym.as_ref().map(|s| s[off..off + n].to_vec());
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            match &s {
                Some(s) if s[i] != 0 => {
                    let e = self.cx.refine(s[i], &st.doms);
                    let v = self.v(e);
                    out.push(self.simp(st, v));
                }
                _ => out.push(C(d[i] as u128)),
            }
        }
        Ok(out)
    }
    fn put_bytes(&mut self, st: &mut State, addr: u64, vs: &[Val]) -> R<()> {
        if vs.is_empty() {
            return Ok(());
        }
        let (id, off) = self.check(st, addr, vs.len() as u64, true)?;
        let o = st.mem.get_mut(id).unwrap();
        for (i, v) in vs.iter().enumerate() {
            match v {
                C(k) => {
                    o.data[off + i] = *k as u8;
                    if let Some(s) = &mut o.sym {
                        s[off + i] = 0;
                    }
                }
                S(e) => {
                    let len = o.data.len();
                    o.sym.get_or_insert_with(|| vec![0; len])[off + i] = *e;
                }
                _ => unreachable!(),
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.check(st, src, n as u64, false)?;
        let (di, do_) = self.check(st, dst, n as u64, true)?;
        let s = st.mem.get(si).unwrap();
        if n <= 64 && s.sym.is_none() {
            let mut b = [0u8; 64];
            b[..n].copy_from_slice(&s.data[so..so + n]);
            let d = st.mem.get_mut(di).unwrap();
            d.data[do_..do_ + n].copy_from_slice(&b[..n]);
            if let Some(x) = &mut d.sym {
                x[do_..do_ + n].fill(0);
            }
            return Ok(());
        }
        let data = s.data[so..so + n].to_vec();
        let sym = match &s.sym {
            Some(x) if x[so..so + n].iter().any(|e| *e != 0) => Some(x[so..so + n].to_vec()),
            _ => None,
        };
        let d = st.mem.get_mut(di).unwrap();
        d.data[do_..do_ + n].copy_from_slice(&data);
        match sym {
            Some(x) => {
                let len = d.data.len();
                d.sym.get_or_insert_with(|| vec![0; len])[do_..do_ + n].copy_from_slice(&x);
            }
            None => {
                if let Some(x) = &mut d.sym {
                    x[do_..do_ + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn cstr(&mut self, st: &mut State, addr: u64) -> R<String> {
        let mut s = vec![];
        let mut a = addr;
        loop {
            let v = self.load_int(st, a, 1)?;
            let k = self.conc(st, &v)?;
            if k == 0 {
                break;
            }
            s.push(k as u8);
            a += 1;
        }
        Ok(String::from_utf8_lossy(&s).to_string())
    }
    fn str_at(&mut self, st: &mut State, addr: u64, n: usize) -> R<String> {
        let vs = self.bytes_at(st, addr, n)?;
        let mut s = vec![];
        for v in vs {
            s.push(self.conc(st, &v)? as u8);
        }
        Ok(String::from_utf8_lossy(&s).to_string())
    }

    // ---- scalar operations ---------------------------------------------------------------
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            if *y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                return Err(Stop::Mem("division by zero reached".into()));
            }
            return Ok(C(concrete_bin(op, w, *x, *y)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = &mut self.cx;
        let r = match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::UDiv => c.udiv(x, y),
            BinOp::SDiv => c.sdiv(x, y),
            BinOp::URem => c.urem(x, y),
            BinOp::SRem => c.srem(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::LShr => c.lshr(x, y),
            BinOp::AShr => c.ashr(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
            _ => return Err(Stop::Unsupported("symbolic float".into())),
        };
        Ok(self.v(r))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            return C(concrete_cmp(p, w, *x, *y) as u128);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = &mut self.cx;
        let r = match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let q = c.eq(x, y);
                c.not(q)
            }
            Pred::Ult => c.ult(x, y),
            Pred::Ugt => c.ult(y, x),
            Pred::Ule => c.ule(x, y),
            Pred::Uge => c.ule(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Sle => {
                let q = c.slt(y, x);
                c.not(q)
            }
            Pred::Sge => {
                let q = c.slt(x, y);
                c.not(q)
            }
        };
        self.v(r)
    }
    fn ite(&mut self, c: E, w: u32, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (A(x), A(y)) => {
                // aggregates of unknown element widths: only constants of equal shape are merged by the caller
                let _ = (x, y);
                panic!("ite on aggregate")
            }
            _ => {
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.cx.ite(c, x, y);
                self.v(r)
            }
        }
    }
    fn flatten(&mut self, v: &Val, k: K) -> R<Val> {
        match (v, k) {
            (A(vs), K::Vec(n, w)) => {
                if vs.iter().all(|x| matches!(x, C(_))) && n * w <= 128 {
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() {
                        if let C(k) = x {
                            r |= k << (i as u32 * w);
                        }
                    }
                    return Ok(C(r));
                }
                if n * w > 128 {
                    return Err(Stop::Unsupported("wide bitcast".into()));
                }
                let mut acc: Option<E> = None;
                for x in vs.iter() {
                    let e = self.e(x, w);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.cx.concat(e, a),
                    });
                }
                let r = acc.unwrap();
                Ok(self.v(r))
            }
            (v, _) => Ok(v.clone()),
        }
    }
    fn unflatten(&mut self, v: &Val, k: K) -> Val {
        match k {
            K::Vec(n, w) => {
                let mut o = vec![];
                for i in 0..n {
                    o.push(match v {
                        C(x) => C(mask(x >> (i * w), w)),
                        S(e) => {
                            let r = self.cx.extract(*e, i * w, w);
                            self.v(r)
                        }
                        a => a.clone(),
                    });
                }
                A(Rc::new(o))
            }
            _ => v.clone(),
        }
    }
    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> Val {
        match op {
            CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr if tw < fw => match a {
                C(x) => C(mask(*x, tw)),
                S(e) => {
                    let r = self.cx.extract(*e, 0, tw);
                    self.v(r)
                }
                v => v.clone(),
            },
            CastOp::SExt => match a {
                C(x) => C(mask(sext(*x, fw) as u128, tw)),
                S(e) => {
                    let r = self.cx.sext(*e, tw);
                    self.v(r)
                }
                v => v.clone(),
            },
            _ => match a {
                C(x) => C(*x),
                S(e) => {
                    if tw > fw {
                        let r = self.cx.zext(*e, tw);
                        self.v(r)
                    } else {
                        S(*e)
                    }
                }
                v => v.clone(),
            },
        }
    }

    // ---- running -------------------------------------------------------------------------
    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| f.func.pretty.clone()).collect()
    }
    pub fn inputs_of(&self, st: &State, model: &[u128]) -> Vec<u128> {
        let mut memo = HashMap::new();
        st.inputs.iter().map(|Input::Var(_, e)| self.cx.eval(*e, model, &mut memo)).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: &str, model: &[u128]) {
        if self.rep.violations.len() < self.cfg.max_violations {
            let v = Violation { kind: kind.into(), msg: msg.into(), inputs: self.inputs_of(st, model), stack: self.stack(st) };
            self.rep.violations.push(v);
        }
    }
    pub fn run_one(&mut self, mut st: State) {
        let r = self.run(&mut st);
        self.rep.steps += 0;
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        self.rep.max_vars = self.rep.max_vars.max(st.doms.len());
        let mut end = "done".to_string();
        match r {
            Stop::Done => {
                self.rep.paths += 1;
            }
            Stop::Infeasible => {
                self.rep.infeasible += 1;
                return;
            }
            Stop::Panic(m) => {
                if st.panic_ok {
                    self.rep.paths += 1;
                    *self.rep.refused.entry(m).or_insert(0) += 1;
                    end = "refused".into();
                } else {
                    let md = st.model.clone();
                    self.violation(&st, "panic", &m, &md);
                    self.rep.paths += 1;
                    return;
                }
            }
            Stop::Mem(m) => {
                let md = st.model.clone();
                self.violation(&st, "memory", &m, &md);
                self.rep.paths += 1;
                return;
            }
            Stop::Assert(_) => {
                self.rep.paths += 1;
                return;
            }
            Stop::Hang => {
                let md = st.model.clone();
                self.violation(&st, "hang", "instruction limit exceeded", &md);
                self.rep.paths += 1;
                return;
            }
            Stop::Unsupported(m) => {
                let k = format!("unsupported: {} in {}", m, self.stack(&st).into_iter().take(4).collect::<Vec<_>>().join(" < "));
                *self.rep.errors.entry(k).or_insert(0) += 1;
                return;
            }
            Stop::Unknown(m) => {
                let k = format!("unknown: {} in {}", m, self.stack(&st).into_iter().take(4).collect::<Vec<_>>().join(" < "));
                *self.rep.errors.entry(k).or_insert(0) += 1;
                return;
            }
        }
        for c in st.covers.iter() {
            self.rep.covers.insert(c.clone());
        }
        let key = format!("{}|{:?}", end, st.covers);
        let fresh = self.rep.kinds_seen.insert(key);
        if (fresh || self.rep.paths % self.cfg.sample_every == 0) && self.rep.samples.len() < self.cfg.max_samples {
            let mut memo = HashMap::new();
            let out = st
                .out
                .iter()
                .map(|o| {
                    o.iter()
                        .map(|v| match v {
                            C(k) => *k as u8,
                            S(e) => self.cx.eval(*e, &st.model, &mut memo) as u8,
                            _ => 0,
                        })
                        .collect()
                })
                .collect();
            let inputs = self.inputs_of(&st, &st.model);
            self.rep.samples.push(Sample { inputs, out, end });
        }
    }
    fn run(&mut self, st: &mut State) -> Stop {
        let s0 = st.steps;
        let r = match self.run_inner(st) {
            Ok(()) => Stop::Done,
            Err(s) => s,
        };
        self.rep.steps += st.steps - s0;
        r
    }
    fn jump(&mut self, fr: &mut Frame, to: u32) {
        let from = fr.block;
        fr.prev = from;
        fr.block = to;
        fr.ip = 0;
        let f = fr.func.clone();
        let ph = &f.blocks[to as usize].phis;
        if ph.is_empty() {
            return;
        }
        if ph.len() == 1 {
            let p = &ph[0];
            let o = &p.inc.iter().find(|(b, _)| *b == from).expect("phi").1;
            let v = get(&fr.regs, o);
            fr.regs[p.dst as usize] = v;
            return;
        }
        let vals: Vec<(u32, Val)> = ph
            .iter()
            .map(|p| {
                let o = &p.inc.iter().find(|(b, _)| *b == from).expect("phi").1;
                (p.dst, get(&fr.regs, o))
            })
            .collect();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
    }
    fn run_inner(&mut self, st: &mut State) -> R<()> {
        loop {
            let fi = st.frames.len() - 1;
            let func = st.frames[fi].func.clone();
            // inner loop: same frame
            loop {
                let (bi, ip) = {
                    let f = &st.frames[fi];
                    (f.block as usize, f.ip as usize)
                };
                let inst = &func.blocks[bi].insts[ip];
                st.steps += 1;
                if !Rc::ptr_eq(&self.cx.facts, &st.facts) {
                    self.cx.facts = st.facts.clone();
                }
                if !Rc::ptr_eq(&self.cx.pinned, &st.pinned) {
                    self.cx.pinned = st.pinned.clone();
                }
                if st.steps > self.cfg.max_steps {
                    return Err(Stop::Hang);
                }
                macro_rules! g {
                    ($o:expr) => {
                        get(&st.frames[fi].regs, $o)
                    };
                }
                macro_rules! set {
                    ($d:expr, $v:expr) => {{
                        let v = $v;
                        let f = &mut st.frames[fi];
                        f.regs[$d as usize] = v;
                        f.ip += 1;
                    }};
                }
                match inst {
                    LI::Bin { op, dst, k, a, b } => {
                        let (x, y) = (g!(a), g!(b));
                        let v = match k {
                            K::Int(w) => self.bin(*op, *w, &x, &y)?,
                            K::Vec(n, w) => {
                                let (A(p), A(q)) = (x, y) else { return Err(Stop::Unsupported("vector op".into())) };
                                let mut o = Vec::with_capacity(*n as usize);
                                for i in 0..*n as usize {
                                    o.push(self.bin(*op, *w, &p[i], &q[i])?);
                                }
                                A(Rc::new(o))
                            }
                            K::F32 | K::F64 => {
                                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                                let (x, y) = (bits_f(*k, x), bits_f(*k, y));
                                let r = match op {
                                    BinOp::FAdd => x + y,
                                    BinOp::FSub => x - y,
                                    BinOp::FMul => x * y,
                                    BinOp::FDiv => x / y,
                                    _ => x % y,
                                };
                                C(f_bits(*k, r))
                            }
                            _ => return Err(Stop::Unsupported("bin type".into())),
                        };
                        set!(*dst, v);
                    }
                    LI::Load { dst, k, size, ptr } => {
                        let p = g!(ptr);
                        let a = match p {
                            C(a) => a as u64,
                            S(e) => {
                                let e = self.cx.refine(e, &st.doms);
                                if self.cx.is_const(e).is_none() && !st.known.contains_key(&e) {
                                    if let Some(v) = self.load_sym(st, e, *k, *size)? {
                                        set!(*dst, v);
                                        continue;
                                    }
                                }
                                let v = self.v(e);
                                self.conc(st, &v)? as u64
                            }
                            _ => return Err(Stop::Unsupported("ptr".into())),
                        };
                        let v = self.load_k(st, a, *k, *size)?;
                        set!(*dst, v);
                    }
                    LI::Store { k, size, val, ptr } => {
                        let p = g!(ptr);
                        let a = self.conc(st, &p)? as u64;
                        let v = g!(val);
                        let v = self.simp(st, v);
                        self.store_k(st, a, *k, *size, &v)?;
                        st.frames[fi].ip += 1;
                    }
                    LI::Gep { dst, base, off, terms } => {
                        let mut acc = g!(base);
                        if *off != 0 {
                            acc = self.bin(BinOp::Add, 64, &acc, &C(mask(*off as u128, 64)))?;
                        }
                        for (o, w, s) in terms {
                            let v = g!(o);
                            let v = if *w < 64 { self.cast1(CastOp::SExt, *w, 64, &v) } else { v };
                            let m = self.bin(BinOp::Mul, 64, &v, &C(mask(*s as u128, 64)))?;
                            acc = self.bin(BinOp::Add, 64, &acc, &m)?;
                        }
                        set!(*dst, acc);
                    }
                    LI::Icmp { p, dst, k, a, b } => {
                        let (x, y) = (g!(a), g!(b));
                        let v = match k {
                            K::Int(w) => self.cmp(*p, *w, &x, &y),
                            K::Vec(n, w) => {
                                let (A(s), A(t)) = (x, y) else { return Err(Stop::Unsupported("vector cmp".into())) };
                                A(Rc::new((0..*n as usize).map(|i| self.cmp(*p, *w, &s[i], &t[i])).collect()))
                            }
                            _ => return Err(Stop::Unsupported("icmp type".into())),
                        };
                        set!(*dst, v);
                    }
                    LI::CondBr(c, a, b) => {
                        let v = g!(c);
                        let t = self.decide(st, &v)?;
                        let to = if t { *a } else { *b };
                        let mut fr = std::mem::replace(&mut st.frames[fi], dummy(&func));
                        self.jump(&mut fr, to);
                        st.frames[fi] = fr;
                    }
                    LI::Br(b) => {
                        let mut fr = std::mem::replace(&mut st.frames[fi], dummy(&func));
                        self.jump(&mut fr, *b);
                        st.frames[fi] = fr;
                    }
                    LI::Cast { op, dst, from, to, a } => {
                        let x = g!(a);
                        let v = match (op, from, to) {
                            (CastOp::BitCast, f, t) => {
                                let y = self.flatten(&x, *f)?;
                                self.unflatten(&y, *t)
                            }
                            (CastOp::FpToUi | CastOp::FpToSi, f, K::Int(w)) => {
                                let k = self.conc(st, &x)?;
                                C(mask(bits_f(*f, k) as i128 as u128, *w))
                            }
                            (CastOp::UiToFp, K::Int(_), t) => {
                                let k = self.conc(st, &x)?;
                                C(f_bits(*t, k as f64))
                            }
                            (CastOp::SiToFp, K::Int(w), t) => {
                                let k = self.conc(st, &x)?;
                                C(f_bits(*t, sext(k, *w) as f64))
                            }
                            (CastOp::FpTrunc | CastOp::FpExt, f, t) => {
                                let k = self.conc(st, &x)?;
                                C(f_bits(*t, bits_f(*f, k)))
                            }
                            (o, K::Int(fw), K::Int(tw)) => self.cast1(*o, *fw, *tw, &x),
                            (o, K::Vec(_, fw), K::Vec(_, tw)) => {
                                let A(vs) = x else { return Err(Stop::Unsupported("vector cast".into())) };
                                A(Rc::new(vs.iter().map(|v| self.cast1(*o, *fw, *tw, v)).collect()))
                            }
                            _ => return Err(Stop::Unsupported(format!("cast {:?}", op))),
                        };
                        set!(*dst, v);
                    }
                    LI::Select { dst, vc, k, c, a, b } => {
                        let cv = g!(c);
                        if *vc {
                            let (A(cs), A(x), A(y)) = (cv, g!(a), g!(b)) else { return Err(Stop::Unsupported("vector select".into())) };
                            let K::Vec(_, w) = k else { return Err(Stop::Unsupported("vector select".into())) };
                            let mut o = vec![];
                            for i in 0..cs.len() {
                                o.push(match &cs[i] {
                                    C(1) => x[i].clone(),
                                    C(_) => y[i].clone(),
                                    S(e) => self.ite(*e, *w, &x[i], &y[i]),
                                    _ => return Err(Stop::Unsupported("vector select".into())),
                                });
                            }
                            set!(*dst, A(Rc::new(o)));
                            continue;
                        }
                        let cv = self.simp(st, cv);
                        let v = match cv {
                            C(1) => g!(a),
                            C(_) => g!(b),
                            S(e) => {
                                let (x, y) = (g!(a), g!(b));
                                match k {
                                    K::Int(w) => self.ite(e, *w, &x, &y),
                                    _ => {
                                        let t = self.decide(st, &S(e))?;
                                        if t {
                                            x
                                        } else {
                                            y
                                        }
                                    }
                                }
                            }
                            _ => return Err(Stop::Unsupported("select".into())),
                        };
                        set!(*dst, v);
                    }
                    LI::Alloca { dst, size, n } => {
                        let nv = g!(n);
                        let nn = self.conc(st, &nv)? as u64;
                        let a = st.mem.alloc(vec![0xAA; (*size * nn) as usize], Kind::Stack, false);
                        st.frames[fi].allocas.push(a >> SLOT);
                        set!(*dst, C(a as u128));
                    }
                    LI::Call { dst, ret, t, args, normal } => {
                        let mut av: Vec<Val> = Vec::with_capacity(args.len());
                        for o in args {
                            av.push(g!(o));
                        }
                        let target: Target = match t {
                            Target::Ind(o) => {
                                let p = g!(o);
                                let a = self.conc(st, &p)? as u64;
                                match self.faddr_funcs.get(&(a >> SLOT)) {
                                    Some(&f) if a & 0xff_ffff == 0 => {
                                        let n = self.m.funcs[f as usize].name.clone();
                                        self.target(&n)
                                    }
                                    _ => return Err(Stop::Mem(format!("call through invalid pointer {:#x}", a))),
                                }
                            }
                            t => t.clone(),
                        };
                        match target {
                            Target::F(f) => {
                                let lf = self.lower(f);
                                if st.frames.len() > 4000 {
                                    return Err(Stop::Hang);
                                }
                                let mut regs = vec![C(0); lf.nregs as usize];
                                for (p, v) in lf.params.iter().zip(av) {
                                    regs[*p as usize] = v;
                                }
                                st.frames.push(Frame { func: lf, block: 0, ip: 0, prev: 0, regs, dst: *dst, normal: *normal, allocas: vec![] });
                                break;
                            }
                            Target::B(b) => {
                                let r = self.call_builtin(st, &b, &av, *ret)?;
                                let f = &mut st.frames[fi];
                                if let Some(d) = dst {
                                    f.regs[*d as usize] = r;
                                }
                                match normal {
                                    None => f.ip += 1,
                                    Some(b) => {
                                        let b = *b;
                                        let mut fr = std::mem::replace(&mut st.frames[fi], dummy(&func));
                                        self.jump(&mut fr, b);
                                        st.frames[fi] = fr;
                                    }
                                }
                            }
                            Target::Ind(_) => unreachable!(),
                        }
                    }
                    LI::Ret(o) => {
                        let v = o.as_ref().map(|o| g!(o));
                        let fr = st.frames.pop().unwrap();
                        for a in &fr.allocas {
                            st.mem.free(*a);
                        }
                        if st.frames.is_empty() {
                            return Ok(());
                        }
                        let ci = st.frames.len() - 1;
                        if let (Some(d), Some(v)) = (fr.dst, v) {
                            st.frames[ci].regs[d as usize] = v;
                        }
                        match fr.normal {
                            None => st.frames[ci].ip += 1,
                            Some(b) => {
                                let f2 = st.frames[ci].func.clone();
                                let mut cf = std::mem::replace(&mut st.frames[ci], dummy(&f2));
                                self.jump(&mut cf, b);
                                st.frames[ci] = cf;
                            }
                        }
                        break;
                    }
                    LI::Switch { w, v, default, cases, map } => {
                        let x = g!(v);
                        let x = match x {
                            S(e) => {
                                let e = self.cx.refine(e, &st.doms);
                                let y = self.v(e);
                                self.simp(st, y)
                            }
                            y => y,
                        };
                        let to = match x {
                            C(k) => match map {
                                Some(m) => *m.get(&k).unwrap_or(default),
                                None => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*default),
                            },
                            S(e) => {
                                // group cases by target
                                let mut groups: Vec<(u32, Vec<u128>)> = vec![];
                                for (k, b) in cases {
                                    match groups.iter_mut().find(|g| g.0 == *b) {
                                        Some(g) => g.1.push(*k),
                                        None => groups.push((*b, vec![*k])),
                                    }
                                }
                                let mut to = *default;
                                for (b, ks) in groups {
                                    if b == *default {
                                        continue;
                                    }
                                    let mut c = self.cx.cst(0, 1);
                                    for k in ks {
                                        let kc = self.cx.cst(k, *w);
                                        let q = self.cx.eq(e, kc);
                                        c = self.cx.or(c, q);
                                    }
                                    let cv = self.v(c);
                                    if self.decide(st, &cv)? {
                                        to = b;
                                        break;
                                    }
                                }
                                to
                            }
                            _ => return Err(Stop::Unsupported("switch".into())),
                        };
                        let mut fr = std::mem::replace(&mut st.frames[fi], dummy(&func));
                        self.jump(&mut fr, to);
                        st.frames[fi] = fr;
                    }
                    LI::ExtractValue { dst, a, idx } => {
                        let mut v = g!(a);
                        for i in idx {
                            v = match v {
                                A(x) => x[*i as usize].clone(),
                                _ => return Err(Stop::Unsupported("extractvalue".into())),
                            };
                        }
                        set!(*dst, v);
                    }
                    LI::InsertValue { dst, a, b, idx } => {
                        let v = g!(a);
                        let x = g!(b);
                        fn ins(v: Val, idx: &[u32], x: Val) -> Val {
                            if idx.is_empty() {
                                return x;
                            }
                            match v {
                                A(mut r) => {
                                    let m = Rc::make_mut(&mut r);
                                    let old = std::mem::replace(&mut m[idx[0] as usize], C(0));
                                    m[idx[0] as usize] = ins(old, &idx[1..], x);
                                    A(r)
                                }
                                o => o,
                            }
                        }
                        set!(*dst, ins(v, idx, x));
                    }
                    LI::ExtractElement { dst, a, i } => {
                        let v = g!(a);
                        let iv = g!(i);
                        let k = self.conc(st, &iv)? as usize;
                        let A(x) = v else { return Err(Stop::Unsupported("extractelement".into())) };
                        set!(*dst, x[k].clone());
                    }
                    LI::InsertElement { dst, a, b, i } => {
                        let v = g!(a);
                        let x = g!(b);
                        let iv = g!(i);
                        let k = self.conc(st, &iv)? as usize;
                        let A(mut r) = v else { return Err(Stop::Unsupported("insertelement".into())) };
                        Rc::make_mut(&mut r)[k] = x;
                        set!(*dst, A(r));
                    }
                    LI::Shuffle { dst, a, b, mask, n } => {
                        let (A(x), A(y)) = (g!(a), g!(b)) else { return Err(Stop::Unsupported("shuffle".into())) };
                        let _ = n;
                        let nx = x.len();
                        let o = mask
                            .iter()
                            .map(|m| {
                                let m = *m;
                                if m < 0 {
                                    C(0)
                                } else if (m as usize) < nx {
                                    x[m as usize].clone()
                                } else {
                                    y[m as usize - nx].clone()
                                }
                            })
                            .collect();
                        set!(*dst, A(Rc::new(o)));
                    }
                    LI::Freeze { dst, a } => {
                        let v = g!(a);
                        set!(*dst, v);
                    }
                    LI::AtomicRmw { dst, op, k, size, ptr, val } => {
                        let pv = g!(ptr);
                        let a = self.conc(st, &pv)? as u64;
                        let old = self.load_k(st, a, *k, *size)?;
                        let x = g!(val);
                        let K::Int(w) = k else { return Err(Stop::Unsupported("rmw".into())) };
                        let new = match &**op {
                            "xchg" => x,
                            "add" => self.bin(BinOp::Add, *w, &old, &x)?,
                            "sub" => self.bin(BinOp::Sub, *w, &old, &x)?,
                            "and" => self.bin(BinOp::And, *w, &old, &x)?,
                            "or" => self.bin(BinOp::Or, *w, &old, &x)?,
                            "xor" => self.bin(BinOp::Xor, *w, &old, &x)?,
                            o => return Err(Stop::Unsupported(format!("rmw {}", o))),
                        };
                        self.store_k(st, a, *k, *size, &new)?;
                        set!(*dst, old);
                    }
                    LI::CmpXchg { dst, k, size, ptr, cmp, new } => {
                        let pv = g!(ptr);
                        let a = self.conc(st, &pv)? as u64;
                        let old = self.load_k(st, a, *k, *size)?;
                        let K::Int(w) = k else { return Err(Stop::Unsupported("cmpxchg".into())) };
                        let c = g!(cmp);
                        let eq = self.cmp(Pred::Eq, *w, &old, &c);
                        let t = self.decide(st, &eq)?;
                        if t {
                            let n = g!(new);
                            self.store_k(st, a, *k, *size, &n)?;
                        }
                        set!(*dst, A(Rc::new(vec![old, C(t as u128)])));
                    }
                    LI::FNeg { dst, k, a } => {
                        let x = g!(a);
                        let v = self.conc(st, &x)?;
                        set!(*dst, C(f_bits(*k, -bits_f(*k, v))));
                    }
                    LI::Fcmp { p, dst, k, a, b } => {
                        let (x, y) = (g!(a), g!(b));
                        let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                        let (x, y) = (bits_f(*k, x), bits_f(*k, y));
                        let un = x.is_nan() || y.is_nan();
                        let r = match &**p {
                            "oeq" => x == y,
                            "one" => !un && x != y,
                            "olt" => x < y,
                            "ole" => x <= y,
                            "ogt" => x > y,
                            "oge" => x >= y,
                            "ueq" => un || x == y,
                            "une" => un || x != y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "uno" => un,
                            "ord" => !un,
                            o => return Err(Stop::Unsupported(format!("fcmp {}", o))),
                        };
                        set!(*dst, C(r as u128));
                    }
                    LI::Unreachable => return Err(Stop::Mem("unreachable instruction executed (undefined behaviour)".into())),
                    LI::Resume | LI::LandingPad => return Err(Stop::Unsupported("unwinding".into())),
                    LI::Nop => st.frames[fi].ip += 1,
                    LI::Unsupported(s) => return Err(Stop::Unsupported(format!("instruction {}", s))),
                }
            }
        }
    }

    fn new_var(&mut self, st: &mut State, d: Dom, val: u128) -> R<u32> {
        let i = st.doms.len() as u32;
        if i >= 127 {
            return Err(Stop::Unsupported("too many inputs".into()));
        }
        st.vinfo.push(d);
        st.doms.push(match d {
            Dom::Set(s) => s,
            _ => u32::MAX,
        });
        st.model.push(val);
        Ok(i)
    }
    fn call_builtin(&mut self, st: &mut State, b: &B, a: &[Val], ret: TyId) -> R<Val> {
        let unit = C(0);
        Ok(match b {
            B::Nop => unit,
            B::ReturnFalse | B::ReturnZero => self.zero_val(ret),
            B::Ident | B::Expect => a[0].clone(),
            B::Trap => return Err(Stop::Panic("trap".into())),
            B::Memcpy => {
                let d = self.conc(st, &a[0])? as u64;
                let s = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as usize;
                self.copy(st, d, s, n)?;
                a[0].clone()
            }
            B::Memset => {
                let d = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[2])? as usize;
                let v = match &a[1] {
                    C(k) => C(k & 0xff),
                    S(e) => {
                        let x = self.cx.extract(*e, 0, 8);
                        self.v(x)
                    }
                    _ => return Err(Stop::Unsupported("memset".into())),
                };
                let vs = vec![v; n];
                self.put_bytes(st, d, &vs)?;
                a[0].clone()
            }
            B::Overflow(o, w) => {
                let w = *w;
                let (op, signed) = match o {
                    Ov::UAdd => (BinOp::Add, false),
                    Ov::USub => (BinOp::Sub, false),
                    Ov::UMul => (BinOp::Mul, false),
                    Ov::SAdd => (BinOp::Add, true),
                    Ov::SSub => (BinOp::Sub, true),
                    Ov::SMul => (BinOp::Mul, true),
                };
                let r = self.bin(op, w, &a[0], &a[1])?;
                let f = if let (C(x), C(y)) = (&a[0], &a[1]) {
                    let (x, y) = (*x, *y);
                    let o = if !signed {
                        match op {
                            BinOp::Add => x.checked_add(y).map_or(true, |v| mask(v, w) != v),
                            BinOp::Sub => y > x,
                            _ => x.checked_mul(y).map_or(true, |v| mask(v, w) != v),
                        }
                    } else {
                        let (x, y) = (sext(x, w), sext(y, w));
                        let v = match op {
                            BinOp::Add => x.checked_add(y),
                            BinOp::Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        v.map_or(true, |v| sext(mask(v as u128, w), w) != v)
                    };
                    C(o as u128)
                } else {
                    let (x, y) = (self.e(&a[0], w), self.e(&a[1], w));
                    let c = &mut self.cx;
                    let e = if !signed {
                        match op {
                            BinOp::Add => {
                                if c.hi(x).checked_add(c.hi(y)).map_or(false, |h| mask(h, w) == h) {
                                    c.cst(0, 1)
                                } else {
                                    let s = c.add(x, y);
                                    c.ult(s, x)
                                }
                            }
                            BinOp::Sub => c.ult(x, y),
                            _ => c.umulo(x, y),
                        }
                    } else {
                        // signed bounds
                        let sr = |c: &Cx, e: E| -> (i128, i128) {
                            let (l, h) = (c.lo(e), c.hi(e));
                            if h >> (w - 1) == 0 || l >> (w - 1) == 1 {
                                (sext(l, w), sext(h, w))
                            } else {
                                (-(1i128 << (w - 1).min(126)), (1i128 << (w - 1).min(126)) - 1)
                            }
                        };
                        let mut fits = false;
                        if w <= 64 {
                            let ((al, ah), (bl, bh)) = (sr(c, x), sr(c, y));
                            let c4: Vec<i128> = match op {
                                BinOp::Add => vec![al + bl, ah + bh],
                                BinOp::Sub => vec![al - bh, ah - bl],
                                _ => [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)].iter().map(|x| x.unwrap_or(i128::MAX)).collect(),
                            };
                            let (mn, mx) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                            fits = c4.iter().all(|v| *v >= mn && *v <= mx);
                        }
                        if fits {
                            c.cst(0, 1)
                        } else {
                            let ww = if op == BinOp::Mul { 2 * w } else { w + 1 };
                            if ww > 128 {
                                return Err(Stop::Unsupported("wide signed overflow".into()));
                            }
                            let (p, q) = (c.sext(x, ww), c.sext(y, ww));
                            let full = match op {
                                BinOp::Add => c.add(p, q),
                                BinOp::Sub => c.sub(p, q),
                                _ => c.mul(p, q),
                            };
                            let lowp = c.extract(full, 0, w);
                            let back = c.sext(lowp, ww);
                            let q = c.eq(full, back);
                            c.not(q)
                        }
                    };
                    self.v(e)
                };
                A(Rc::new(vec![r, f]))
            }
            B::SSat(add, w) => {
                // computed with one more bit
                let (x, y) = (self.cast1(CastOp::SExt, *w, *w + 1, &a[0]), self.cast1(CastOp::SExt, *w, *w + 1, &a[1]));
                let r = self.bin(if *add { BinOp::Add } else { BinOp::Sub }, *w + 1, &x, &y)?;
                let (lo, hi) = (mask((-(1i128 << (*w - 1))) as u128, *w + 1), (1u128 << (*w - 1)) - 1);
                let under = self.cmp(Pred::Slt, *w + 1, &r, &C(lo));
                let r1 = self.sel(*w + 1, &under, &C(lo), &r);
                let over = self.cmp(Pred::Sgt, *w + 1, &r, &C(hi));
                let r2 = self.sel(*w + 1, &over, &C(hi), &r1);
                self.cast1(CastOp::Trunc, *w + 1, *w, &r2)
            }
            B::Fp(f, single) => {
                let k = if *single { K::F32 } else { K::F64 };
                let n: Vec<u128> = a.iter().map(|v| self.conc(st, v)).collect::<R<Vec<_>>>()?;
                let x = bits_f(k, n[0]);
                let y = |i: usize| bits_f(k, n[i]);
                if f.contains("sat") {
                    // e.g. fptosi.sat.i64.f64
                    let w: u32 = f.split('.').nth(2).and_then(|t| t[1..].parse().ok()).unwrap_or(64);
                    C(if f.starts_with("fptoui") {
                        (x as u128).min(mask(u128::MAX, w))
                    } else {
                        let m = if w == 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 };
                        mask((x as i128).clamp(-m - 1, m) as u128, w)
                    })
                } else {
                    C(f_bits(k, match f.as_str() {
                        "fabs" => x.abs(),
                        "floor" => x.floor(),
                        "ceil" => x.ceil(),
                        "trunc" => x.trunc(),
                        "roundeven" | "rint" | "nearbyint" => x.round_ties_even(),
                        "round" => x.round(),
                        "sqrt" => x.sqrt(),
                        "copysign" => x.copysign(y(1)),
                        "powi" => x.powi(n[1] as u32 as i32),
                        "pow" => x.powf(y(1)),
                        "fmuladd" | "fma" => x.mul_add(y(1), y(2)),
                        "minnum" => x.min(y(1)),
                        "maxnum" => x.max(y(1)),
                        "log10" => x.log10(),
                        "log2" => x.log2(),
                        "log" => x.ln(),
                        "exp2" => x.exp2(),
                        _ => x.exp(),
                    }))
                }
            }
            B::USubSat(w) => {
                let c = self.cmp(Pred::Ult, *w, &a[0], &a[1]);
                let d = self.bin(BinOp::Sub, *w, &a[0], &a[1])?;
                self.sel(*w, &c, &C(0), &d)
            }
            B::UAddSat(w) => {
                let s = self.bin(BinOp::Add, *w, &a[0], &a[1])?;
                let c = self.cmp(Pred::Ult, *w, &s, &a[0]);
                self.sel(*w, &c, &C(mask(u128::MAX, *w)), &s)
            }
            B::UMin(w) | B::UMax(w) | B::SMin(w) | B::SMax(w) => {
                let (p, fl) = match b {
                    B::UMin(_) => (Pred::Ult, false),
                    B::UMax(_) => (Pred::Ult, true),
                    B::SMin(_) => (Pred::Slt, false),
                    _ => (Pred::Slt, true),
                };
                let f = |ex: &mut Ex, x: &Val, y: &Val| {
                    let c = ex.cmp(p, *w, x, y);
                    if fl {
                        ex.sel(*w, &c, y, x)
                    } else {
                        ex.sel(*w, &c, x, y)
                    }
                };
                match (&a[0], &a[1]) {
                    (A(x), A(y)) => A(Rc::new((0..x.len()).map(|i| f(self, &x[i], &y[i])).collect())),
                    (x, y) => f(self, x, y),
                }
            }
            B::UCmp(w) | B::SCmp(w) => {
                let p = if matches!(b, B::UCmp(_)) { Pred::Ult } else { Pred::Slt };
                let rw = self.m.types.bits(ret);
                let lt = self.cmp(p, *w, &a[0], &a[1]);
                let eq = self.cmp(Pred::Eq, *w, &a[0], &a[1]);
                let x = self.sel(rw, &eq, &C(0), &C(1));
                self.sel(rw, &lt, &C(mask(u128::MAX, rw)), &x)
            }
            B::Abs(w) => {
                let c = self.cmp(Pred::Slt, *w, &a[0], &C(0));
                let n = self.bin(BinOp::Sub, *w, &C(0), &a[0])?;
                self.sel(*w, &c, &n, &a[0])
            }
            B::Ctpop(w) => match &a[0] {
                C(k) => C(k.count_ones() as u128),
                v => {
                    let mut acc = C(0);
                    let e = self.e(v, *w);
                    for i in 0..*w {
                        let x = self.cx.extract(e, i, 1);
                        let z = self.cx.zext(x, *w);
                        let zv = self.v(z);
                        acc = self.bin(BinOp::Add, *w, &acc, &zv)?;
                    }
                    acc
                }
            },
            B::Ctlz(w) => match &a[0] {
                C(k) => C(if *k == 0 { *w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 }),
                v => {
                    let e = self.e(v, *w);
                    let hi = self.cx.hi(e);
                    let top = 128 - hi.leading_zeros(); // bits possibly set
                    let mut acc = self.cx.cst(*w as u128, *w);
                    for i in 0..top {
                        // if e >= 2^i then w-1-i
                        let k = self.cx.cst(1u128 << i, *w);
                        let lt = self.cx.ult(e, k);
                        let r = self.cx.cst((*w - 1 - i) as u128, *w);
                        acc = self.cx.ite(lt, acc, r);
                    }
                    self.v(acc)
                }
            },
            B::Cttz(w) => match &a[0] {
                C(k) => C(if *k == 0 { *w as u128 } else { k.trailing_zeros() as u128 }),
                v => {
                    let e = self.e(v, *w);
                    let mut acc = self.cx.cst(*w as u128, *w);
                    for i in (0..*w).rev() {
                        let bit = self.cx.extract(e, i, 1);
                        let r = self.cx.cst(i as u128, *w);
                        acc = self.cx.ite(bit, r, acc);
                    }
                    self.v(acc)
                }
            },
            B::Bswap(w) => match &a[0] {
                C(k) => C(k.swap_bytes() >> (128 - w)),
                v => {
                    let e = self.e(v, *w);
                    let mut acc = self.cx.extract(e, 0, 8);
                    for i in 1..(*w / 8) {
                        let x = self.cx.extract(e, i * 8, 8);
                        acc = self.cx.concat(acc, x);
                    }
                    self.v(acc)
                }
            },
            B::Bitreverse(w) => {
                let k = self.conc(st, &a[0])?;
                C(k.reverse_bits() >> (128 - w))
            }
            B::Fshl(w) | B::Fshr(w) => {
                let s = self.conc(st, &a[2])? % *w as u128;
                let left = matches!(b, B::Fshl(_));
                if s == 0 {
                    if left {
                        a[0].clone()
                    } else {
                        a[1].clone()
                    }
                } else {
                    let (l, r) = if left { (s, *w as u128 - s) } else { (*w as u128 - s, s) };
                    let x = self.bin(BinOp::Shl, *w, &a[0], &C(l))?;
                    let y = self.bin(BinOp::LShr, *w, &a[1], &C(r))?;
                    self.bin(BinOp::Or, *w, &x, &y)?
                }
            }
            B::ReduceAdd(w) | B::ReduceOr(w) | B::ReduceAnd(w) => {
                let A(v) = &a[0] else { return Err(Stop::Unsupported("reduce".into())) };
                let op = match b {
                    B::ReduceAdd(_) => BinOp::Add,
                    B::ReduceOr(_) => BinOp::Or,
                    _ => BinOp::And,
                };
                let mut acc = v[0].clone();
                for x in &v[1..] {
                    acc = self.bin(op, *w, &acc, x)?;
                }
                acc
            }
            B::LoadRelative => {
                let p = self.conc(st, &a[0])? as u64;
                let o = self.conc(st, &a[1])? as u64;
                let v = self.load_int(st, p.wrapping_add(o), 4)?;
                let k = self.conc(st, &v)?;
                C(mask((p as u128).wrapping_add(sext(k, 32) as u128), 64))
            }
            B::Alloc | B::AllocZeroed => {
                let n = self.conc(st, &a[0])? as usize;
                if n >= 1 << SLOT {
                    return Err(Stop::Unsupported("huge allocation".into()));
                }
                C(st.mem.alloc(vec![if *b == B::Alloc { 0xAA } else { 0 }; n], Kind::Heap, false) as u128)
            }
            B::Dealloc => {
                let p = self.conc(st, &a[0])? as u64;
                let id = p >> SLOT;
                match st.mem.get(id) {
                    Some(o) if o.kind == Kind::Heap && p & 0xff_ffff == 0 => {
                        if a.len() > 1 {
                            if let C(n) = &a[1] {
                                if *n as usize != o.data.len() {
                                    return Err(Stop::Mem("deallocation with wrong size".into()));
                                }
                            }
                        }
                        st.mem.free(id);
                    }
                    Some(_) => return Err(Stop::Mem("invalid free".into())),
                    None => return Err(Stop::Mem(if st.mem.existed(id) { "double free".into() } else { "invalid free".to_string() })),
                }
                unit
            }
            B::Realloc => {
                let p = self.conc(st, &a[0])? as u64;
                let old = self.conc(st, &a[1])? as usize;
                let n = self.conc(st, &a[3])? as usize;
                let id = p >> SLOT;
                match st.mem.get(id) {
                    Some(o) if o.kind == Kind::Heap && p & 0xff_ffff == 0 && o.data.len() == old => {}
                    _ => return Err(Stop::Mem("invalid realloc".into())),
                }
                if n >= 1 << SLOT {
                    return Err(Stop::Unsupported("huge allocation".into()));
                }
                let q = st.mem.alloc(vec![0xAA; n], Kind::Heap, false);
                self.copy(st, q, p, old.min(n))?;
                st.mem.free(id);
                C(q as u128)
            }
            B::Bcmp | B::Memcmp => {
                let n = self.conc(st, &a[2])? as usize;
                let (p, q) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64);
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                if *b == B::Bcmp {
                    let mut acc = C(1);
                    for i in 0..n {
                        let c = self.cmp(Pred::Eq, 8, &x[i], &y[i]);
                        acc = self.bin(BinOp::And, 1, &acc, &c)?;
                        if acc == C(0) {
                            break;
                        }
                    }
                    let acc = self.simp(st, acc);
                    self.sel(32, &acc, &C(0), &C(1))
                } else {
                    let mut acc = C(0);
                    for i in (0..n).rev() {
                        let lt = self.cmp(Pred::Ult, 8, &x[i], &y[i]);
                        let eq = self.cmp(Pred::Eq, 8, &x[i], &y[i]);
                        let d = self.sel(32, &lt, &C(0xffff_ffff), &C(1));
                        acc = self.sel(32, &eq, &acc, &d);
                    }
                    acc
                }
            }
            B::Strlen => {
                let p = self.conc(st, &a[0])? as u64;
                let s = self.cstr(st, p)?;
                C(s.len() as u128)
            }
            B::CMemchr => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[2])? as usize;
                let c = match &a[1] {
                    C(k) => C(k & 0xff),
                    S(e) => {
                        let x = self.cx.extract(*e, 0, 8);
                        self.v(x)
                    }
                    _ => return Err(Stop::Unsupported("memchr".into())),
                };
                let x = self.bytes_at(st, p, n)?;
                let mut r = 0;
                for i in 0..n {
                    let q = self.cmp(Pred::Eq, 8, &x[i], &c);
                    if self.decide(st, &q)? {
                        r = p + i as u64;
                        break;
                    }
                }
                C(r as u128)
            }
            B::PanicFmt => {
                let m = self.panic_msg(st, &a[0], &a[1]);
                return Err(Stop::Panic(m));
            }
            B::PanicNamed(n) => {
                let mut m = n.clone();
                // location is the last argument of most panic entry points
                if let Some(C(l)) = a.last() {
                    if let Some(s) = self.location(st, *l as u64) {
                        m = format!("{} at {}", n, s);
                    }
                }
                if let (Some(C(p)), Some(C(n))) = (a.get(0), a.get(1)) {
                    if *n < 200 {
                        if let Ok(bs) = self.bytes_at(st, *p as u64, *n as usize) {
                            let t: String = bs.iter().map(|v| if let C(k) = v { *k as u8 as char } else { '?' }).collect();
                            m = format!("{}: {}", m, t);
                        }
                    }
                }
                return Err(Stop::Panic(m));
            }
            B::ClockGettime => {
                let p = self.conc(st, &a[1])? as u64;
                self.store_int(st, p, 8, &C(st.clock as u128))?;
                self.store_int(st, p + 8, 8, &C(0))?;
                C(0)
            }
            B::RandomKeys => A(Rc::new(vec![C(1), C(2)])),
            B::Errno => C(st.errno_addr as u128),
            B::Open => {
                let p = self.conc(st, &a[0])? as u64;
                let name = norm(&self.cstr(st, p)?);
                if st.files.contains_key(&name) {
                    let fd = 100 + st.fds.len() as u64;
                    Rc::make_mut(&mut st.fds).insert(fd, OpenFile { name: name.as_str().into(), pos: 0 });
                    C(fd as u128)
                } else {
                    let e = st.errno_addr;
                    self.store_int(st, e, 4, &C(2))?;
                    C(0xffff_ffff)
                }
            }
            B::Close => C(0),
            B::Read => {
                let fd = self.conc(st, &a[0])? as u64;
                let p = self.conc(st, &a[1])? as u64;
                let n = self.conc(st, &a[2])? as usize;
                let Some(of) = st.fds.get(&fd).cloned() else { return Err(Stop::Unsupported("read of unknown descriptor".into())) };
                let data = st.files[&*of.name].clone();
                let k = n.min(data.len() - of.pos);
                self.put_bytes(st, p, &data[of.pos..of.pos + k])?;
                Rc::make_mut(&mut st.fds).get_mut(&fd).unwrap().pos += k;
                C(k as u128)
            }
            B::Fstat => {
                let fd = self.conc(st, &a[0])? as u64;
                let p = self.conc(st, &a[1])? as u64;
                let n = st.fds.get(&fd).map(|f| st.files[&*f.name].len()).unwrap_or(0);
                self.put_bytes(st, p, &vec![C(0); 144])?;
                self.store_int(st, p + 24, 4, &C(0o100644))?;
                self.store_int(st, p + 48, 8, &C(n as u128))?;
                C(0)
            }
            B::Stat => {
                let q = self.conc(st, &a[0])? as u64;
                let p = self.conc(st, &a[1])? as u64;
                let name = norm(&self.cstr(st, q)?);
                match st.files.get(&name).map(|f| f.len()) {
                    Some(n) => {
                        self.put_bytes(st, p, &vec![C(0); 144])?;
                        self.store_int(st, p + 24, 4, &C(0o100644))?;
                        self.store_int(st, p + 48, 8, &C(n as u128))?;
                        C(0)
                    }
                    None => {
                        let dir = name == "/w" || name == "/" || st.files.keys().any(|k| k.starts_with(&format!("{}/", name)));
                        if dir {
                            self.put_bytes(st, p, &vec![C(0); 144])?;
                            self.store_int(st, p + 24, 4, &C(0o040755))?;
                            C(0)
                        } else {
                            let e = st.errno_addr;
                            self.store_int(st, e, 4, &C(2))?;
                            C(0xffff_ffff)
                        }
                    }
                }
            }
            B::Lseek => {
                let fd = self.conc(st, &a[0])? as u64;
                let off = self.conc(st, &a[1])? as usize;
                let wh = self.conc(st, &a[2])?;
                if let Some(f) = Rc::make_mut(&mut st.fds).get_mut(&fd) {
                    match wh {
                        0 => f.pos = off,
                        1 => f.pos += off,
                        _ => return Err(Stop::Unsupported("lseek".into())),
                    }
                    C(f.pos as u128)
                } else {
                    C(0)
                }
            }
            B::Getcwd => {
                let p = self.conc(st, &a[0])? as u64;
                self.put_bytes(st, p, &[C(b'/' as u128), C(b'w' as u128), C(0)])?;
                a[0].clone()
            }
            B::Syscall => {
                // no system calls by number (the library falls back to the named functions)
                let e = st.errno_addr;
                self.store_int(st, e, 4, &C(38))?;
                C(u64::MAX as u128)
            }
            B::Write => a[2].clone(),
            B::HashNew => {
                // sret or by-value hasher: zero state
                if let Some(C(p)) = a.first() {
                    if let Some(o) = st.mem.get(*p as u64 >> SLOT) {
                        if a.len() > 1 {
                            let n = o.data.len().min(72);
                            let vs = vec![C(0); n];
                            self.put_bytes(st, *p as u64, &vs)?;
                        }
                    }
                }
                unit
            }
            B::HashWrite => {
                if st.hash_mode != 0 {
                    // accumulate the (concrete) key in a side table keyed by the hasher's address
                    let h = self.conc(st, &a[0])? as u64;
                    let bs: Vec<u8> = if a.len() >= 3 {
                        let (p, n) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as usize);
                        let vs = self.bytes_at(st, p, n)?;
                        let mut o = vec![];
                        for v in vs {
                            o.push(self.conc(st, &v)? as u8);
                        }
                        o
                    } else {
                        let k = self.conc(st, &a[1])?;
                        k.to_le_bytes()[..8].to_vec()
                    };
                    let vs = self.bytes_at(st, h, 8)?;
                    let mut acc = 0u64;
                    for (i, v) in vs.iter().enumerate() {
                        acc |= (self.conc(st, v)? as u64) << (8 * i);
                    }
                    for b in bs {
                        acc = (acc ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(7) ^ 0x9e37;
                    }
                    self.store_int(st, h, 8, &C(acc as u128))?;
                }
                unit
            }
            B::HashFinish => {
                if st.hash_mode == 0 {
                    C(0)
                } else {
                    let h = self.conc(st, &a[0])? as u64;
                    let v = self.load_int(st, h, 8)?;
                    let k = self.conc(st, &v)? as u64;
                    let key = k.to_le_bytes().to_vec();
                    if let Some(s) = st.hash_slots.get(&key) {
                        C(*s as u128)
                    } else {
                        // every new key may land in any of the first slots
                        let n = st.hash_mode.min(8);
                        let set = self.cx.set({
                            let mut s: Set = [0; 4];
                            for i in 0..n {
                                set_insert(&mut s, i as u8);
                            }
                            s
                        });
                        let i = self.new_var(st, Dom::Set(set), 0)?;
                        // hidden input: not part of the replay stream
                        let e = self.cx.var8(i, set);
                        // decide now: fork over all slots
                        for s in 1..n {
                            let mut c = st.clone();
                            c.model[i as usize] = s as u128;
                            let kc = self.cx.cst(s as u128, 8);
                            let q = self.cx.eq(e, kc);
                            self.assume(&mut c, q);
                            Rc::make_mut(&mut c.hash_slots).insert(key.clone(), s);
                            self.rep.forks += 1;
                            self.work.push(c);
                        }
                        let kc = self.cx.cst(0, 8);
                        let q = self.cx.eq(e, kc);
                        self.assume(st, q);
                        Rc::make_mut(&mut st.hash_slots).insert(key, 0);
                        C(0)
                    }
                }
            }
            B::SxByte => {
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as usize;
                let vs = self.bytes_at(st, p, n)?;
                let mut s: Set = [0; 4];
                for v in vs {
                    set_insert(&mut s, self.conc(st, &v)? as u8);
                }
                let first = set_iter(&s).next().expect("empty charset");
                let sid = self.cx.set(s);
                let i = self.new_var(st, Dom::Set(sid), first as u128)?;
                let e = self.cx.var8(i, sid);
                st.inputs.push(Input::Var(i, e));
                self.v(e)
            }
            B::SxRange | B::SxChoose => {
                let (lo, hi) = if *b == B::SxRange { (self.conc(st, &a[0])?, self.conc(st, &a[1])?) } else { (0, self.conc(st, &a[0])? - 1) };
                let e = if hi - lo < 256 {
                    let mut s: Set = [0; 4];
                    for i in 0..=(hi - lo) {
                        set_insert(&mut s, i as u8);
                    }
                    let sid = self.cx.set(s);
                    let i = self.new_var(st, Dom::Set(sid), 0)?;
                    let x = self.cx.var8(i, sid);
                    let x = self.cx.zext(x, 64);
                    let k = self.cx.cst(lo, 64);
                    let e = self.cx.add(x, k);
                    st.inputs.push(Input::Var(i, e));
                    e
                } else {
                    let i = self.new_var(st, Dom::Range(64, lo, hi), lo)?;
                    let e = self.cx.var_range(i, 64, lo, hi);
                    st.inputs.push(Input::Var(i, e));
                    e
                };
                if *b == B::SxChoose {
                    // the children re-execute nothing: they continue with their own value
                    // (handled by returning a symbolic value that the caller concretises at once)
                    self.v(e)
                } else {
                    self.v(e)
                }
            }
            B::SxConcretize => {
                let k = self.conc(st, &a[0])?;
                C(k)
            }
            B::SxAssume => {
                let e = match &a[0] {
                    C(0) => return Err(Stop::Infeasible),
                    C(_) => return Ok(unit),
                    S(e) => *e,
                    _ => unreachable!(),
                };
                match self.feasible(st, e)? {
                    None => return Err(Stop::Infeasible),
                    Some(m) => {
                        if self.evalm(st, e) != 1 {
                            st.model = m;
                        }
                        self.assume(st, e);
                    }
                }
                unit
            }
            B::SxAssert => {
                let e = match &a[0] {
                    C(1) => {
                        self.rep.asserts_const += 1;
                        return Ok(unit);
                    }
                    C(_) => {
                        let (p, n) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as usize);
                        let m = self.str_at(st, p, n)?;
                        let md = st.model.clone();
                        self.violation(st, "assert", &m, &md);
                        return Err(Stop::Assert(m));
                    }
                    S(e) => *e,
                    _ => unreachable!(),
                };
                let e = self.simplify(st, e);
                let ne = self.cx.not(e);
                if self.cx.is_const(e).is_some() {
                    self.rep.asserts_const += 1;
                } else {
                    self.rep.asserts_solver += 1;
                }
                match self.ask(st, ne)? {
                    None => {
                        Rc::make_mut(&mut st.known).insert(e, 1);
                    }
                    Some(m) => {
                        let (p, n) = (self.conc(st, &a[1])? as u64, self.conc(st, &a[2])? as usize);
                        let msg = self.str_at(st, p, n)?;
                        self.violation(st, "assert", &msg, &m);
                        // continue on the part where it holds
                        match self.feasible(st, e)? {
                            None => return Err(Stop::Assert(msg)),
                            Some(m) => {
                                st.model = m;
                                self.assume(st, e);
                            }
                        }
                    }
                }
                unit
            }
            B::SxCover => {
                let (p, n) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as usize);
                let m = self.str_at(st, p, n)?;
                Rc::make_mut(&mut st.covers).insert(m);
                unit
            }
            B::SxOut => {
                let (p, n) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as usize);
                let vs = self.bytes_at(st, p, n)?;
                Rc::make_mut(&mut st.out).push(Rc::new(vs));
                unit
            }
            B::SxPanicOk => {
                st.panic_ok = self.conc(st, &a[0])? & 1 == 1;
                unit
            }
            B::SxFile => {
                let (p, n) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as usize);
                let name = norm(&self.str_at(st, p, n)?);
                let (p, n) = (self.conc(st, &a[2])? as u64, self.conc(st, &a[3])? as usize);
                let vs = self.bytes_at(st, p, n)?;
                Rc::make_mut(&mut st.files).insert(name, Rc::new(vs));
                unit
            }
            B::SxHashMode => {
                st.hash_mode = self.conc(st, &a[0])? as u64;
                unit
            }
            B::SxClock => {
                st.clock = self.conc(st, &a[0])? as u64;
                unit
            }
            B::SxParam => {
                let i = self.conc(st, &a[0])? as usize;
                let d = self.conc(st, &a[1])? as u64;
                let v = self.cfg.params.get(i).copied().unwrap_or(d);
                C(v as u128)
            }
            B::SxLive => {
                // is [p, p+n) inside a live object?
                let p = self.conc(st, &a[0])? as u64;
                let n = self.conc(st, &a[1])? as u64;
                C(self.check(st, p, n, false).is_ok() as u128)
            }
            B::Redirect(_) => unreachable!(),
            B::Unknown(n) => return Err(Stop::Unsupported(format!("external function {}", n))),
        })
    }
    fn sel(&mut self, w: u32, c: &Val, a: &Val, b: &Val) -> Val {
        match c {
            C(1) => a.clone(),
            C(_) => b.clone(),
            S(e) => self.ite(*e, w, a, b),
            _ => unreachable!(),
        }
    }
    fn location(&mut self, st: &State, l: u64) -> Option<String> {
        // &Location { file: &str, line: u32, col: u32 }
        let p = self.load_int(st, l, 8).ok()?;
        let n = self.load_int(st, l + 8, 8).ok()?;
        let line = self.load_int(st, l + 16, 4).ok()?;
        let (C(p), C(n), C(line)) = (p, n, line) else { return None };
        if n > 300 {
            return None;
        }
        let bs = self.bytes_at(st, p as u64, n as usize).ok()?;
        let f: String = bs.iter().map(|v| if let C(k) = v { *k as u8 as char } else { '?' }).collect();
        if !f.ends_with(".rs") {
            return None;
        }
        let f = f.rsplit("/registry/src/").next().unwrap().to_string();
        Some(format!("{}:{}", f, line))
    }
    fn panic_msg(&mut self, st: &State, args: &Val, loc: &Val) -> String {
        let mut m = String::new();
        if let C(p) = args {
            // fmt::Arguments { pieces: &[&str], ... }
            if let (Ok(C(ps)), Ok(C(n))) = (self.load_int(st, *p as u64, 8), self.load_int(st, *p as u64 + 8, 8)) {
                for i in 0..n.min(8) {
                    if let (Ok(C(q)), Ok(C(len))) = (self.load_int(st, (ps + i * 16) as u64, 8), self.load_int(st, (ps + i * 16 + 8) as u64, 8)) {
                        if let Ok(bs) = self.bytes_at(st, q as u64, len.min(200) as usize) {
                            if i > 0 {
                                m.push_str("{}");
                            }
                            m.extend(bs.iter().map(|v| if let C(k) = v { *k as u8 as char } else { '?' }));
                        }
                    }
                }
            }
        }
        if let C(l) = loc {
            if let Some(s) = self.location(st, *l as u64) {
                m = format!("{} at {}", m, s);
            }
        }
        m
    }
}

#[inline]
fn get(regs: &[Val], o: &LOp) -> Val {
    match o {
        LOp::R(r) => regs[*r as usize].clone(),
        LOp::I(k) => C(*k),
        LOp::V(v) => v.clone(),
    }
}

fn dummy(f: &Rc<LFunc>) -> Frame {
    Frame { func: f.clone(), block: 0, ip: 0, prev: 0, regs: Vec::new(), dst: None, normal: None, allocas: Vec::new() }
}

/// Absolute path in the virtual file system, whose working directory is /w.
fn norm(p: &str) -> String {
    if p.is_empty() {
        return String::new();
    }
    let full = if p.starts_with('/') { p.to_string() } else { format!("/w/{}", p) };
    let mut v: Vec<&str> = vec![];
    for s in full.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            s => v.push(s),
        }
    }
    format!("/{}", v.join("/"))
}
