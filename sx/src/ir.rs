//! Reader for textual LLVM IR (the output of llvm-dis), restricted to what rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Array(u64, TyId),
    Vector(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Meta,
    Token,
    Fun,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
}

impl Types {
    pub fn intern(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.map.insert(t, i);
        i
    }
    pub fn get(&self, t: TyId) -> &Ty {
        &self.tys[t as usize]
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.get(t) {
            Ty::Int(n) => *n,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vector(n, e) => n * self.bits(*e),
            o => panic!("bits of {:?}", o),
        }
    }
    pub fn align(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(n) => {
                let b = (*n as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(_, e) => self.align(*e),
            Ty::Vector(..) => self.store_size(t).next_power_of_two(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| self.align(*f)).max().unwrap_or(1)
                }
            }
            o => panic!("align of {:?}", o),
        }
    }
    pub fn store_size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(n) => (*n as u64 + 7) / 8,
            Ty::Vector(n, e) => (*n as u64 * self.bits(*e) as u64 + 7) / 8,
            _ => self.size(t),
        }
    }
    /// Allocation size.
    pub fn size(&self, t: TyId) -> u64 {
        match self.get(t) {
            Ty::Int(_) | Ty::Vector(..) => {
                let s = self.store_size(t);
                let a = self.align(t);
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for f in fs {
                    if !packed {
                        let a = self.align(*f);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*f);
                }
                if !packed {
                    let a = self.align(t);
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Void => 0,
            o => panic!("size of {:?}", o),
        }
    }
    pub fn field(&self, t: TyId, i: usize) -> (u64, TyId) {
        match self.get(t) {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !packed {
                        let a = self.align(*f);
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, *f);
                    }
                    o += self.size(*f);
                }
                panic!("field index")
            }
            Ty::Array(_, e) => (i as u64 * self.size(*e), *e),
            Ty::Vector(_, e) => (i as u64 * self.size(*e), *e),
            o => panic!("field of {:?}", o),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(Rc<str>),     // keyword / bare identifier / type names like i32
    Loc(Rc<str>),    // %name
    Glob(Rc<str>),   // @name
    Attr,            // #12
    Meta(Rc<str>),   // !name / !12
    Num(Rc<str>),    // integer or float literal, as text
    Str(Rc<[u8]>),   // "..."
    CStr(Rc<[u8]>),  // c"..."
    P(char),
    Dots,
    LabelDef(Rc<str>),
    Eof,
}

#[derive(Clone)]
pub struct Token {
    pub t: Tok,
    pub line: u32,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && (s[i + 1] as char).is_ascii_hexdigit() && (s[i + 2] as char).is_ascii_hexdigit() {
            let h = (s[i + 1] as char).to_digit(16).unwrap() * 16 + (s[i + 2] as char).to_digit(16).unwrap();
            out.push(h as u8);
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            out.push(b'\\');
            i += 2;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    out
}

pub fn lex(src: &[u8]) -> Vec<Token> {
    let mut out: Vec<Token> = Vec::with_capacity(src.len() / 4);
    let mut i = 0;
    let mut line = 1u32;
    let n = src.len();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < n {
        let c = src[i];
        match c {
            b'\n' => {
                line += 1;
                i += 1;
            }
            b' ' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < n && src[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' | b'$' | b'!' if i + 1 < n && src[i + 1] == b'"' && c != b'!' => {
                let s = i + 2;
                let mut j = s;
                while src[j] != b'"' {
                    j += 1;
                }
                let name: Rc<str> = String::from_utf8_lossy(&unescape(&src[s..j])).into();
                i = j + 1;
                out.push(Token { t: if c == b'%' { Tok::Loc(name) } else if c == b'@' { Tok::Glob(name) } else { Tok::Id(name) }, line });
            }
            b'%' | b'@' => {
                let s = i + 1;
                let mut j = s;
                while j < n && idc(src[j]) {
                    j += 1;
                }
                let name: Rc<str> = std::str::from_utf8(&src[s..j]).unwrap().into();
                i = j;
                out.push(Token { t: if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) }, line });
            }
            b'#' => {
                let mut j = i + 1;
                while j < n && idc(src[j]) {
                    j += 1;
                }
                i = j;
                out.push(Token { t: Tok::Attr, line });
            }
            b'!' => {
                let s = i + 1;
                let mut j = s;
                while j < n && (idc(src[j]) || src[j] == b'\\') {
                    j += 1;
                }
                let name: Rc<str> = std::str::from_utf8(&src[s..j]).unwrap().into();
                i = j;
                out.push(Token { t: Tok::Meta(name), line });
            }
            b'"' => {
                let s = i + 1;
                let mut j = s;
                while src[j] != b'"' {
                    if src[j] == b'\n' {
                        line += 1;
                    }
                    j += 1;
                }
                let v = unescape(&src[s..j]);
                i = j + 1;
                if i < n && src[i] == b':' {
                    i += 1;
                    out.push(Token { t: Tok::LabelDef(String::from_utf8_lossy(&v).into()), line });
                } else {
                    out.push(Token { t: Tok::Str(v.into()), line });
                }
            }
            b'c' if i + 1 < n && src[i + 1] == b'"' => {
                let s = i + 2;
                let mut j = s;
                while src[j] != b'"' {
                    j += 1;
                }
                let v = unescape(&src[s..j]);
                i = j + 1;
                out.push(Token { t: Tok::CStr(v.into()), line });
            }
            b'.' if i + 2 < n && src[i + 1] == b'.' && src[i + 2] == b'.' => {
                i += 3;
                out.push(Token { t: Tok::Dots, line });
            }
            b'+' | b'-' if src[i + 1..].starts_with(b"inf") || src[i + 1..].starts_with(b"qnan") || src[i + 1..].starts_with(b"nan(") || src[i + 1..].starts_with(b"snan(") => {
                let s = i;
                let mut j = i + 1;
                while j < n && (src[j].is_ascii_alphanumeric() || src[j] == b'(' || src[j] == b')') {
                    j += 1;
                }
                out.push(Token { t: Tok::Num(std::str::from_utf8(&src[s..j]).unwrap().into()), line });
                i = j;
            }
            _ if c.is_ascii_digit() || ((c == b'-' || c == b'+') && i + 1 < n && src[i + 1].is_ascii_digit()) => {
                let s = i;
                let mut j = i + 1;
                while j < n && (src[j].is_ascii_alphanumeric() || src[j] == b'.' || ((src[j] == b'+' || src[j] == b'-') && (src[j - 1] == b'e' || src[j - 1] == b'E') && src[s + 1] != b'x')) {
                    j += 1;
                }
                if j < n && src[j] == b':' {
                    out.push(Token { t: Tok::LabelDef(std::str::from_utf8(&src[s..j]).unwrap().into()), line });
                    i = j + 1;
                } else {
                    out.push(Token { t: Tok::Num(std::str::from_utf8(&src[s..j]).unwrap().into()), line });
                    i = j;
                }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'-' || c == b'.' || c == b'$' => {
                let s = i;
                let mut j = i + 1;
                while j < n && idc(src[j]) {
                    j += 1;
                }
                let name: Rc<str> = std::str::from_utf8(&src[s..j]).unwrap().into();
                if j < n && src[j] == b':' {
                    out.push(Token { t: Tok::LabelDef(name), line });
                    i = j + 1;
                } else {
                    out.push(Token { t: Tok::Id(name), line });
                    i = j;
                }
            }
            _ => {
                out.push(Token { t: Tok::P(c as char), line });
                i += 1;
            }
        }
    }
    out.push(Token { t: Tok::Eof, line: line + 1 });
    out
}

/// Constant expressions, before global addresses are assigned.
#[derive(Clone, Debug)]
pub enum CE {
    Int(u128),
    Zero,
    Undef,
    Global(Rc<str>),
    Agg(Vec<(TyId, CE)>),
    Bytes(Rc<[u8]>),
    Gep(TyId, Box<CE>, Vec<(TyId, CE)>),
    Cast(Rc<str>, TyId, Box<CE>, TyId),
    Bin(Rc<str>, TyId, Box<CE>, Box<CE>),
    Splat(TyId, Box<CE>),
}

#[derive(Clone, Debug)]
pub enum Operand {
    Reg(u32),
    Const(TyId, Rc<CE>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Rc<str>),
    Indirect(Operand),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, ty: TyId, n: Operand, align: u64 },
    Load { dst: u32, ty: TyId, ptr: Operand },
    Store { ty: TyId, val: Operand, ptr: Operand },
    Gep { dst: u32, base: Operand, off: i64, terms: Vec<(Operand, TyId, i64)> },
    Bin { op: BinOp, dst: u32, ty: TyId, a: Operand, b: Operand },
    FNeg { dst: u32, ty: TyId, a: Operand },
    Icmp { p: Pred, dst: u32, ty: TyId, a: Operand, b: Operand },
    Fcmp { p: Rc<str>, dst: u32, ty: TyId, a: Operand, b: Operand },
    Cast { op: CastOp, dst: u32, from: TyId, to: TyId, a: Operand },
    Select { dst: u32, cty: TyId, ty: TyId, c: Operand, a: Operand, b: Operand },
    Freeze { dst: u32, a: Operand },
    Call { dst: Option<u32>, ret: TyId, callee: Callee, args: Vec<(TyId, Operand)>, normal: Option<u32> },
    ExtractValue { dst: u32, ty: TyId, a: Operand, idx: Vec<u32> },
    InsertValue { dst: u32, ty: TyId, a: Operand, ety: TyId, b: Operand, idx: Vec<u32> },
    ExtractElement { dst: u32, ty: TyId, a: Operand, i: Operand },
    InsertElement { dst: u32, ty: TyId, a: Operand, b: Operand, i: Operand },
    Shuffle { dst: u32, ty: TyId, a: Operand, b: Operand, mask: Vec<i32> },
    AtomicRmw { dst: u32, op: Rc<str>, ty: TyId, ptr: Operand, val: Operand },
    CmpXchg { dst: u32, ty: TyId, ptr: Operand, cmp: Operand, new: Operand },
    Br(u32),
    CondBr(Operand, u32, u32),
    Switch { ty: TyId, v: Operand, default: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(TyId, Operand)>),
    Unreachable,
    Resume,
    LandingPad { dst: u32 },
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: TyId,
    pub inc: Vec<(u32, Operand)>,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub name: String,
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: Rc<str>,
    pub ret: TyId,
    pub params: Vec<(TyId, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub name: Rc<str>,
    pub ty: TyId,
    pub init: Option<CE>,
    pub is_const: bool,
    pub align: u64,
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub body: Option<usize>, // token index of '{'
    pub ret: TyId,
    pub params: Vec<(TyId, Option<Rc<str>>)>,
}

pub struct Module {
    pub types: Types,
    pub named: HashMap<Rc<str>, TyId>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(Rc<str>, CE)>,
    pub funcs: Vec<FuncDecl>,
    pub toks: Vec<Token>,
}

pub struct P<'a> {
    pub t: &'a [Token],
    pub i: usize,
    pub types: &'a mut Types,
    pub named: &'a HashMap<Rc<str>, TyId>,
    pub regs: HashMap<Rc<str>, u32>,
    pub blocks: HashMap<Rc<str>, u32>,
    pub nregs: u32,
}

impl<'a> P<'a> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].t
    }
    fn peek_n(&self, k: usize) -> &Tok {
        &self.t[(self.i + k).min(self.t.len() - 1)].t
    }
    fn line(&self) -> u32 {
        self.t[self.i].line
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].t.clone();
        self.i += 1;
        t
    }
    fn fail(&self, m: &str) -> ! {
        panic!("IR parse error line {}: {} at {:?}", self.line(), m, self.peek())
    }
    fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            self.fail(&format!("expected {:?}", c))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if &**x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_id(&mut self, s: &str) {
        if !self.eat_id(s) {
            self.fail(&format!("expected {}", s))
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => self.fail("eof"),
                _ => (),
            }
        }
    }
    fn int_ty(s: &str) -> Option<u32> {
        if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) {
            s[1..].parse().ok()
        } else {
            None
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Id(s) => Self::int_ty(s).is_some() || matches!(&**s, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token"),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::Loc(n) => self.named.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> TyId {
        let mut t = match self.next() {
            Tok::Id(s) => {
                if let Some(n) = Self::int_ty(&s) {
                    self.types.intern(Ty::Int(n))
                } else {
                    let k = match &*s {
                        "void" => Ty::Void,
                        "ptr" => Ty::Ptr,
                        "float" => Ty::Float,
                        "double" => Ty::Double,
                        "label" => Ty::Label,
                        "metadata" => Ty::Meta,
                        "token" => Ty::Token,
                        _ => {
                            self.i -= 1;
                            self.fail("type")
                        }
                    };
                    let r = self.types.intern(k);
                    if &*s == "ptr" && self.is_id("addrspace") {
                        self.i += 1;
                        self.skip_parens();
                    }
                    r
                }
            }
            Tok::P('[') => {
                let n: u64 = self.num() as u64;
                self.exp_id("x");
                let e = self.ty();
                self.exp_p(']');
                self.types.intern(Ty::Array(n, e))
            }
            Tok::P('{') => {
                let f = self.ty_list('}');
                self.types.intern(Ty::Struct(f, false))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}');
                    self.exp_p('>');
                    self.types.intern(Ty::Struct(f, true))
                } else {
                    let n = self.num() as u32;
                    self.exp_id("x");
                    let e = self.ty();
                    self.exp_p('>');
                    self.types.intern(Ty::Vector(n, e))
                }
            }
            Tok::Loc(n) => *self.named.get(&n).unwrap_or_else(|| self.fail("named type")),
            _ => {
                self.i -= 1;
                self.fail("type")
            }
        };
        // function type suffix
        if self.is_p('(') && matches!(self.types.get(t), Ty::Void | Ty::Int(_) | Ty::Ptr | Ty::Struct(..) | Ty::Float | Ty::Double | Ty::Array(..)) {
            self.skip_parens();
            t = self.types.intern(Ty::Fun);
        }
        t
    }
    fn ty_nofn(&mut self) -> TyId {
        // parse a type that may be directly followed by '(' that is not a function type
        // (not needed for values; callers use `ty`)
        self.ty()
    }
    fn ty_list(&mut self, close: char) -> Vec<TyId> {
        let mut v = vec![];
        if self.eat_p(close) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat_p(close) {
                return v;
            }
            self.exp_p(',');
        }
    }
    fn num(&mut self) -> i128 {
        match self.next() {
            Tok::Num(s) => parse_int(&s) as i128,
            _ => {
                self.i -= 1;
                self.fail("number")
            }
        }
    }
    /// Skip parameter / return attributes.
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Id(s) => {
                    let s = s.clone();
                    match &*s {
                        "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "signext" | "zeroext" | "inreg" | "returned" | "immarg" | "nest" | "swiftself" | "swifterror"
                        | "dead_on_unwind" | "writable" | "nofree" | "allocptr" | "allocalign" | "noext" | "dead_on_return" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            } else {
                                self.i += 1;
                            }
                        }
                        "sret" | "byval" | "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "initializes" | "elementtype" | "preallocated" | "inalloca" | "byref" | "nofpclass" | "alignstack"
                        | "memory" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                        _ => return,
                    }
                }
                Tok::Str(_) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Tok::Attr => self.i += 1,
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &Rc<str>) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.clone(), r);
        r
    }
    fn block(&mut self, n: &Rc<str>) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.clone(), r);
        r
    }
    pub fn operand(&mut self, ty: TyId) -> Operand {
        if let Tok::Loc(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Operand::Reg(self.reg(&n));
        }
        let c = self.constant(ty);
        Operand::Const(ty, Rc::new(c))
    }
    fn ty_operand(&mut self) -> (TyId, Operand) {
        let t = self.ty();
        self.attrs();
        let o = self.operand(t);
        (t, o)
    }
    pub fn constant(&mut self, ty: TyId) -> CE {
        match self.next() {
            Tok::Num(s) => match self.types.get(ty) {
                Ty::Float => CE::Int(parse_float(&s, true)),
                Ty::Double => CE::Int(parse_float(&s, false)),
                _ => CE::Int(parse_int(&s)),
            },
            Tok::Id(s) if s.starts_with("f0x") => CE::Int(parse_float(&s, false)),
            Tok::Glob(n) => CE::Global(n),
            Tok::CStr(b) => CE::Bytes(b),
            Tok::P('[') => {
                let v = self.agg_elems(']');
                CE::Agg(v)
            }
            Tok::P('{') => {
                let v = self.agg_elems('}');
                CE::Agg(v)
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let v = self.agg_elems('}');
                    self.exp_p('>');
                    CE::Agg(v)
                } else {
                    let v = self.agg_elems('>');
                    CE::Agg(v)
                }
            }
            Tok::Id(s) => match &*s {
                "true" => CE::Int(1),
                "false" => CE::Int(0),
                "null" | "zeroinitializer" | "none" => CE::Zero,
                "undef" | "poison" => CE::Undef,
                "splat" => {
                    self.exp_p('(');
                    let t = self.ty();
                    let c = self.constant(t);
                    self.exp_p(')');
                    CE::Splat(t, Box::new(c))
                }
                "getelementptr" => {
                    while let Tok::Id(x) = self.peek() {
                        match &**x {
                            "inbounds" | "nuw" | "nusw" => self.i += 1,
                            "inrange" => {
                                self.i += 1;
                                self.skip_parens();
                            }
                            _ => break,
                        }
                    }
                    self.exp_p('(');
                    let bt = self.ty();
                    self.exp_p(',');
                    let pt = self.ty();
                    let base = self.constant(pt);
                    let mut idx = vec![];
                    while self.eat_p(',') {
                        let t = self.ty();
                        let c = self.constant(t);
                        idx.push((t, c));
                    }
                    self.exp_p(')');
                    CE::Gep(bt, Box::new(base), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "sext" | "ptrtoaddr" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        self.i += 1;
                    }
                    self.exp_p('(');
                    let ft = self.ty();
                    let c = self.constant(ft);
                    self.exp_id("to");
                    let tt = self.ty();
                    self.exp_p(')');
                    CE::Cast(s, ft, Box::new(c), tt)
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        self.i += 1;
                    }
                    self.exp_p('(');
                    let t = self.ty();
                    let a = self.constant(t);
                    self.exp_p(',');
                    let t2 = self.ty();
                    let b = self.constant(t2);
                    self.exp_p(')');
                    CE::Bin(s, t, Box::new(a), Box::new(b))
                }
                "dso_local_equivalent" | "no_cfi" => match self.next() {
                    Tok::Glob(n) => CE::Global(n),
                    _ => self.fail("global"),
                },
                "asm" => {
                    // asm constraint strings
                    CE::Undef
                }
                _ => {
                    self.i -= 1;
                    self.fail("constant")
                }
            },
            Tok::Meta(_) => CE::Undef,
            _ => {
                self.i -= 1;
                self.fail("constant")
            }
        }
    }
    fn agg_elems(&mut self, close: char) -> Vec<(TyId, CE)> {
        let mut v = vec![];
        if self.eat_p(close) {
            return v;
        }
        loop {
            let t = self.ty();
            let c = self.constant(t);
            v.push((t, c));
            if self.eat_p(close) {
                return v;
            }
            self.exp_p(',');
        }
    }
    fn skip_line(&mut self) {
        let l = self.t[self.i - 1].line;
        while self.t[self.i].line == l && *self.peek() != Tok::Eof {
            self.i += 1;
        }
    }
    fn label(&mut self) -> u32 {
        self.exp_id("label");
        match self.next() {
            Tok::Loc(n) => self.block(&n),
            _ => self.fail("label"),
        }
    }

    fn inst(&mut self, blk: &mut Block) {
        let start = self.i;
        let mut dst: Option<u32> = None;
        if let Tok::Loc(n) = self.peek() {
            let n = n.clone();
            self.i += 1;
            self.exp_p('=');
            dst = Some(self.reg(&n));
        }
        let op = match self.next() {
            Tok::Id(s) => s,
            _ => {
                self.i = start;
                self.fail("instruction")
            }
        };
        let binop = match &*op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "fadd" => Some(BinOp::FAdd),
            "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul),
            "fdiv" => Some(BinOp::FDiv),
            "frem" => Some(BinOp::FRem),
            _ => None,
        };
        let flags = |p: &mut Self| {
            while let Tok::Id(x) = p.peek() {
                match &**x {
                    "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" => p.i += 1,
                    _ => break,
                }
            }
        };
        if let Some(b) = binop {
            flags(self);
            let ty = self.ty();
            let a = self.operand(ty);
            self.exp_p(',');
            let bb = self.operand(ty);
            self.skip_line();
            blk.insts.push(Inst::Bin { op: b, dst: dst.unwrap(), ty, a, b: bb });
            return;
        }
        let castop = match &*op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" => Some(CastOp::BitCast),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            _ => None,
        };
        if let Some(c) = castop {
            flags(self);
            let (from, a) = self.ty_operand();
            self.exp_id("to");
            let to = self.ty();
            self.skip_line();
            blk.insts.push(Inst::Cast { op: c, dst: dst.unwrap(), from, to, a });
            return;
        }
        match &*op {
            "alloca" => {
                let ty = self.ty();
                let mut n = None;
                let mut align = 16;
                while self.eat_p(',') {
                    if self.eat_id("align") {
                        align = self.num() as u64;
                    } else if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    } else {
                        n = Some(self.ty_operand().1);
                    }
                }
                self.skip_line();
                let i64t = self.types.intern(Ty::Int(64));
                let n = n.unwrap_or(Operand::Const(i64t, Rc::new(CE::Int(1))));
                blk.insts.push(Inst::Alloca { dst: dst.unwrap(), ty, n, align });
            }
            "load" => {
                flags(self);
                let ty = self.ty();
                self.exp_p(',');
                let (_, ptr) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::Load { dst: dst.unwrap(), ty, ptr });
            }
            "store" => {
                flags(self);
                let (ty, val) = self.ty_operand();
                self.exp_p(',');
                let (_, ptr) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::Store { ty, val, ptr });
            }
            "getelementptr" => {
                flags(self);
                if self.is_id("inrange") {
                    self.i += 1;
                    self.skip_parens();
                }
                let bt = self.ty();
                self.exp_p(',');
                let (pt, base) = self.ty_operand();
                let mut idx = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    }
                    idx.push(self.ty_operand());
                }
                self.skip_line();
                if let Ty::Vector(..) = self.types.get(pt) {
                    blk.insts.push(Inst::Unsupported("vector gep".into()));
                    return;
                }
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = bt;
                for (k, (t, o)) in idx.into_iter().enumerate() {
                    let w = match self.types.get(t) {
                        Ty::Int(w) => *w,
                        _ => {
                            blk.insts.push(Inst::Unsupported("vector gep".into()));
                            return;
                        }
                    };
                    let ci = match &o {
                        Operand::Const(_, c) => match &**c {
                            CE::Int(v) => Some(sext(*v, w) as i64),
                            CE::Zero | CE::Undef => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    let (scale, next) = if k == 0 {
                        (self.types.size(cur) as i64, cur)
                    } else {
                        match self.types.get(cur).clone() {
                            Ty::Struct(..) => {
                                let (fo, ft) = self.types.field(cur, ci.expect("struct idx") as usize);
                                off += fo as i64;
                                cur = ft;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => (self.types.size(e) as i64, e),
                            o => panic!("gep into {:?}", o),
                        }
                    };
                    cur = next;
                    match ci {
                        Some(v) => off = off.wrapping_add(v.wrapping_mul(scale)),
                        None => terms.push((o, t, scale)),
                    }
                }
                blk.insts.push(Inst::Gep { dst: dst.unwrap(), base, off, terms });
            }
            "fneg" => {
                flags(self);
                let (ty, a) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::FNeg { dst: dst.unwrap(), ty, a });
            }
            "icmp" => {
                flags(self);
                let p = match self.next() {
                    Tok::Id(s) => match &*s {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => self.fail("pred"),
                    },
                    _ => self.fail("pred"),
                };
                let ty = self.ty();
                let a = self.operand(ty);
                self.exp_p(',');
                let b = self.operand(ty);
                self.skip_line();
                blk.insts.push(Inst::Icmp { p, dst: dst.unwrap(), ty, a, b });
            }
            "fcmp" => {
                flags(self);
                let p = match self.next() {
                    Tok::Id(s) => s,
                    _ => self.fail("pred"),
                };
                let ty = self.ty();
                let a = self.operand(ty);
                self.exp_p(',');
                let b = self.operand(ty);
                self.skip_line();
                blk.insts.push(Inst::Fcmp { p, dst: dst.unwrap(), ty, a, b });
            }
            "select" => {
                flags(self);
                let (cty, c) = self.ty_operand();
                self.exp_p(',');
                let (ty, a) = self.ty_operand();
                self.exp_p(',');
                let (_, b) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::Select { dst: dst.unwrap(), cty, ty, c, a, b });
            }
            "freeze" => {
                let (_, a) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::Freeze { dst: dst.unwrap(), a });
            }
            "phi" => {
                flags(self);
                let ty = self.ty();
                let mut inc = vec![];
                loop {
                    self.exp_p('[');
                    let v = self.operand(ty);
                    self.exp_p(',');
                    let b = match self.next() {
                        Tok::Loc(n) => self.block(&n),
                        _ => self.fail("phi block"),
                    };
                    self.exp_p(']');
                    inc.push((b, v));
                    if !(self.is_p(',') && *self.peek_n(1) == Tok::P('[')) {
                        break;
                    }
                    self.exp_p(',');
                }
                self.skip_line();
                blk.phis.push(Phi { dst: dst.unwrap(), ty, inc });
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let invoke = &*op == "invoke";
                if &*op == "tail" || &*op == "musttail" || &*op == "notail" {
                    self.exp_id("call");
                }
                loop {
                    flags(self);
                    self.attrs();
                    match self.peek() {
                        Tok::Id(s) if matches!(&**s, "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "x86_64_sysvcc") => self.i += 1,
                        Tok::Id(s) if &**s == "cc" => self.i += 2,
                        _ => break,
                    }
                }
                // return type; avoid treating "(args)" as function type
                let ret = self.ret_ty();
                let callee = match self.next() {
                    Tok::Glob(n) => Callee::Direct(n),
                    Tok::Loc(n) => Callee::Indirect(Operand::Reg(self.reg(&n))),
                    Tok::Id(s) if &*s == "asm" => {
                        while !self.is_p('(') {
                            self.i += 1;
                        }
                        Callee::Asm
                    }
                    Tok::Id(_) => {
                        self.i -= 1;
                        let pt = self.types.intern(Ty::Ptr);
                        Callee::Indirect(self.operand(pt))
                    }
                    _ => {
                        self.i -= 1;
                        self.fail("callee")
                    }
                };
                self.exp_p('(');
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty();
                        self.attrs();
                        if matches!(self.types.get(t), Ty::Meta) {
                            // metadata operand: skip one balanced element
                            let mut d = 0;
                            loop {
                                match self.peek() {
                                    Tok::P('(') | Tok::P('{') => d += 1,
                                    Tok::P(')') if d == 0 => break,
                                    Tok::P(')') | Tok::P('}') => d -= 1,
                                    Tok::P(',') if d == 0 => break,
                                    _ => (),
                                }
                                self.i += 1;
                            }
                        } else {
                            let o = self.operand(t);
                            args.push((t, o));
                        }
                        if self.eat_p(')') {
                            break;
                        }
                        self.exp_p(',');
                    }
                }
                let mut normal = None;
                if invoke {
                    while !self.is_id("to") {
                        self.i += 1;
                    }
                    self.i += 1;
                    normal = Some(self.label());
                    self.exp_id("unwind");
                    let _ = self.label();
                }
                self.skip_line();
                blk.insts.push(Inst::Call { dst, ret, callee, args, normal });
            }
            "extractvalue" => {
                let (ty, a) = self.ty_operand();
                let mut idx = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    }
                    idx.push(self.num() as u32);
                }
                self.skip_line();
                blk.insts.push(Inst::ExtractValue { dst: dst.unwrap(), ty, a, idx });
            }
            "insertvalue" => {
                let (ty, a) = self.ty_operand();
                self.exp_p(',');
                let (ety, b) = self.ty_operand();
                let mut idx = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Tok::Meta(_)) {
                        break;
                    }
                    idx.push(self.num() as u32);
                }
                self.skip_line();
                blk.insts.push(Inst::InsertValue { dst: dst.unwrap(), ty, a, ety, b, idx });
            }
            "extractelement" => {
                let (ty, a) = self.ty_operand();
                self.exp_p(',');
                let (_, i) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::ExtractElement { dst: dst.unwrap(), ty, a, i });
            }
            "insertelement" => {
                let (ty, a) = self.ty_operand();
                self.exp_p(',');
                let (_, b) = self.ty_operand();
                self.exp_p(',');
                let (_, i) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::InsertElement { dst: dst.unwrap(), ty, a, b, i });
            }
            "shufflevector" => {
                let (ty, a) = self.ty_operand();
                self.exp_p(',');
                let (_, b) = self.ty_operand();
                self.exp_p(',');
                let (mt, m) = self.ty_operand();
                let n = match self.types.get(mt) {
                    Ty::Vector(n, _) => *n,
                    _ => self.fail("mask"),
                };
                let mask: Vec<i32> = match m {
                    Operand::Const(_, c) => match &*c {
                        CE::Zero | CE::Undef => vec![0; n as usize],
                        CE::Agg(v) => v
                            .iter()
                            .map(|(_, c)| match c {
                                CE::Int(v) => *v as i32,
                                _ => 0,
                            })
                            .collect(),
                        CE::Splat(_, c) => vec![
                            match &**c {
                                CE::Int(v) => *v as i32,
                                _ => 0,
                            };
                            n as usize
                        ],
                        _ => self.fail("mask"),
                    },
                    _ => self.fail("mask"),
                };
                self.skip_line();
                blk.insts.push(Inst::Shuffle { dst: dst.unwrap(), ty, a, b, mask });
            }
            "atomicrmw" => {
                flags(self);
                let o = match self.next() {
                    Tok::Id(s) => s,
                    _ => self.fail("rmw"),
                };
                let (_, ptr) = self.ty_operand();
                self.exp_p(',');
                let (ty, val) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::AtomicRmw { dst: dst.unwrap(), op: o, ty, ptr, val });
            }
            "cmpxchg" => {
                flags(self);
                let (_, ptr) = self.ty_operand();
                self.exp_p(',');
                let (ty, cmp) = self.ty_operand();
                self.exp_p(',');
                let (_, new) = self.ty_operand();
                self.skip_line();
                blk.insts.push(Inst::CmpXchg { dst: dst.unwrap(), ty, ptr, cmp, new });
            }
            "fence" => {
                self.skip_line();
            }
            "br" => {
                if self.is_id("label") {
                    let l = self.label();
                    self.skip_line();
                    blk.insts.push(Inst::Br(l));
                } else {
                    let (_, c) = self.ty_operand();
                    self.exp_p(',');
                    let a = self.label();
                    self.exp_p(',');
                    let b = self.label();
                    self.skip_line();
                    blk.insts.push(Inst::CondBr(c, a, b));
                }
            }
            "switch" => {
                let (ty, v) = self.ty_operand();
                self.exp_p(',');
                let d = self.label();
                self.exp_p('[');
                let mut cases = vec![];
                while !self.eat_p(']') {
                    let t = self.ty();
                    let c = self.constant(t);
                    let k = match c {
                        CE::Int(k) => k,
                        CE::Zero => 0,
                        _ => self.fail("case"),
                    };
                    let w = self.types.bits(ty);
                    self.exp_p(',');
                    let l = self.label();
                    cases.push((mask(k, w), l));
                }
                self.skip_line();
                blk.insts.push(Inst::Switch { ty, v, default: d, cases });
            }
            "ret" => {
                let t = self.ty();
                if matches!(self.types.get(t), Ty::Void) {
                    blk.insts.push(Inst::Ret(None));
                } else {
                    let o = self.operand(t);
                    blk.insts.push(Inst::Ret(Some((t, o))));
                }
                self.skip_line();
            }
            "unreachable" => {
                self.skip_line();
                blk.insts.push(Inst::Unreachable);
            }
            "resume" => {
                self.skip_line();
                blk.insts.push(Inst::Resume);
            }
            "landingpad" => {
                let _ = self.ty();
                self.skip_line();
                loop {
                    match self.peek() {
                        Tok::Id(s) if matches!(&**s, "cleanup" | "catch" | "filter") => {
                            self.i += 1;
                            self.skip_line();
                        }
                        _ => break,
                    }
                }
                blk.insts.push(Inst::LandingPad { dst: dst.unwrap() });
            }
            o => {
                blk.insts.push(Inst::Unsupported(o.to_string()));
                self.skip_line();
            }
        }
    }
    fn ret_ty(&mut self) -> TyId {
        // like ty(), but a directly following "(...)" followed by a callee is a function type: take the return type.
        let t0 = match self.peek().clone() {
            Tok::Id(s) if Self::int_ty(&s).is_some() => {
                self.i += 1;
                self.types.intern(Ty::Int(Self::int_ty(&s).unwrap()))
            }
            Tok::Id(s) if matches!(&*s, "void" | "ptr" | "float" | "double") => {
                self.i += 1;
                let k = match &*s {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float,
                    _ => Ty::Double,
                };
                self.types.intern(k)
            }
            _ => self.ty_nofn(),
        };
        if self.is_p('(') {
            // vararg function type
            self.skip_parens();
        }
        t0
    }
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let v = mask(v, w);
    if w > 0 && (v >> (w - 1)) & 1 == 1 {
        (v | !((1u128 << w) - 1)) as i128
    } else {
        v as i128
    }
}

pub fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
    } else if let Some(h) = s.strip_prefix("u0x").or_else(|| s.strip_prefix("s0x")) {
        u128::from_str_radix(h, 16).unwrap()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int literal {}", s))
    }
}

fn parse_float(s: &str, single: bool) -> u128 {
    if let Some(h) = s.strip_prefix("f0x") {
        // the bits of the value in its own type
        return u128::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float literal {}", s));
    }
    if let Some(r) = s.strip_prefix(['+', '-']).filter(|r| !r.starts_with(|c: char| c.is_ascii_digit())) {
        let neg = s.starts_with('-') as u128;
        let (frac, top) = if single { (23, 0xffu128 << 23) } else { (52, 0x7ffu128 << 52) };
        let payload = r.trim_end_matches(')').split_once("(0x").map_or(0, |(_, h)| u128::from_str_radix(h, 16).unwrap());
        let low = match r {
            "inf" => 0,
            "qnan" => 1u128 << (frac - 1),
            r if r.starts_with("nan(") => payload | 1u128 << (frac - 1),
            _ => payload,
        };
        return neg << if single { 31 } else { 63 } | top | low;
    }
    if let Some(h) = s.strip_prefix("0x") {
        let bits = u64::from_str_radix(h, 16).unwrap_or_else(|_| panic!("float literal {}", s));
        if single {
            (f64::from_bits(bits) as f32).to_bits() as u128
        } else {
            bits as u128
        }
    } else if let Ok(d) = s.parse::<f64>() {
        if single {
            (d as f32).to_bits() as u128
        } else {
            d.to_bits() as u128
        }
    } else {
        panic!("float literal {}", s)
    }
}

pub fn parse_module(src: &[u8]) -> Module {
    let toks = lex(src);
    let mut types = Types::default();
    let mut named: HashMap<Rc<str>, TyId> = HashMap::new();
    let mut globals = vec![];
    let mut aliases = vec![];
    let mut funcs = vec![];
    let mut i = 0;
    // named types first
    while i + 3 < toks.len() {
        if let Tok::Loc(n) = &toks[i].t {
            if toks[i + 1].t == Tok::P('=') && matches!(&toks[i + 2].t, Tok::Id(s) if &**s == "type") && (i == 0 || toks[i - 1].line != toks[i].line) {
                let mut p = P { t: &toks, i: i + 3, types: &mut types, named: &named.clone(), regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
                if p.is_id("opaque") {
                    continue;
                }
                let t = p.ty();
                i = p.i;
                named.insert(n.clone(), t);
                continue;
            }
        }
        i += 1;
    }
    let mut p = P { t: &toks, i: 0, types: &mut types, named: &named, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
    loop {
        match p.peek().clone() {
            Tok::Eof => break,
            Tok::Glob(name) if *p.peek_n(1) == Tok::P('=') => {
                p.i += 2;
                // linkage etc.
                let mut kind = 0; // 1 global 2 constant 3 alias
                loop {
                    match p.next() {
                        Tok::Id(s) => match &*s {
                            "global" => {
                                kind = 1;
                                break;
                            }
                            "constant" => {
                                kind = 2;
                                break;
                            }
                            "alias" => {
                                kind = 3;
                                break;
                            }
                            "ifunc" => break,
                            _ => {
                                if p.is_p('(') {
                                    p.skip_parens();
                                }
                            }
                        },
                        _ => break,
                    }
                }
                if kind == 3 {
                    let _ = p.ty();
                    p.exp_p(',');
                    let t = p.ty();
                    let c = p.constant(t);
                    aliases.push((name, c));
                    p.skip_line();
                } else if kind == 0 {
                    p.skip_line();
                } else {
                    let line = p.line();
                    let ty = p.ty();
                    let init = if p.line() == line && !p.is_p(',') && !matches!(p.peek(), Tok::Eof | Tok::Attr) { Some(p.constant(ty)) } else { None };
                    let mut align = 1;
                    while p.line() == line && *p.peek() != Tok::Eof {
                        if p.eat_id("align") {
                            align = p.num() as u64;
                        } else {
                            p.i += 1;
                        }
                    }
                    globals.push(Global { name, ty, init, is_const: kind == 2, align });
                }
            }
            Tok::Id(s) if &*s == "define" || &*s == "declare" => {
                let def = &*s == "define";
                p.i += 1;
                // skip to return type
                loop {
                    if p.is_type_start() {
                        break;
                    }
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
                let ret = p.ret_ty_decl();
                let name = match p.next() {
                    Tok::Glob(n) => n,
                    _ => p.fail("function name"),
                };
                p.exp_p('(');
                let mut params = vec![];
                if !p.eat_p(')') {
                    loop {
                        if *p.peek() == Tok::Dots {
                            p.i += 1;
                        } else {
                            let t = p.ty();
                            p.attrs();
                            let mut n = None;
                            if let Tok::Loc(x) = p.peek() {
                                n = Some(x.clone());
                                p.i += 1;
                            }
                            params.push((t, n));
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp_p(',');
                    }
                }
                if def {
                    while !p.is_p('{') {
                        p.i += 1;
                    }
                    let body = p.i;
                    // skip to the closing brace at line start
                    loop {
                        p.i += 1;
                        if p.is_p('}') && p.t[p.i - 1].line != p.t[p.i].line {
                            break;
                        }
                    }
                    p.i += 1;
                    funcs.push(FuncDecl { name, body: Some(body), ret, params });
                } else {
                    p.skip_line();
                    funcs.push(FuncDecl { name, body: None, ret, params });
                }
            }
            _ => {
                p.i += 1;
                p.skip_line();
            }
        }
    }
    Module { types, named, globals, aliases, funcs, toks }
}

impl<'a> P<'a> {
    fn ret_ty_decl(&mut self) -> TyId {
        self.ty()
    }
}

pub fn parse_body(m: &mut Module, idx: usize) -> Func {
    let named = std::mem::take(&mut m.named);
    let toks = std::mem::take(&mut m.toks);
    let mut types = std::mem::take(&mut m.types);
    let fd = &m.funcs[idx];
    let mut p = P { t: &toks, i: fd.body.unwrap() + 1, types: &mut types, named: &named, regs: HashMap::new(), blocks: HashMap::new(), nregs: 0 };
    let mut params = vec![];
    let mut unnamed = 0;
    for (t, n) in &fd.params {
        let n = match n {
            Some(n) => n.clone(),
            None => {
                let s: Rc<str> = format!("{}", unnamed).into();
                s
            }
        };
        if n.chars().all(|c| c.is_ascii_digit()) {
            unnamed += 1;
        }
        let r = p.reg(&n);
        params.push((*t, r));
    }
    // entry block name
    let mut blocks: Vec<Block> = vec![];
    let entry: Rc<str> = match p.peek() {
        Tok::LabelDef(n) => n.clone(),
        _ => format!("{}", unnamed).into(),
    };
    let _ = p.block(&entry);
    if let Tok::LabelDef(_) = p.peek() {
        p.i += 1;
    }
    let mut cur = 0u32;
    let mut blk = Block { name: entry.to_string(), ..Default::default() };
    loop {
        match p.peek().clone() {
            Tok::LabelDef(n) => {
                p.i += 1;
                while blocks.len() <= cur as usize {
                    blocks.push(Block::default());
                }
                blocks[cur as usize] = std::mem::take(&mut blk);
                cur = p.block(&n);
                blk.name = n.to_string();
            }
            Tok::P('}') => break,
            Tok::Attr => {
                // debug record
                p.i += 1;
                p.skip_line();
            }
            _ => p.inst(&mut blk),
        }
    }
    while blocks.len() <= cur as usize {
        blocks.push(Block::default());
    }
    blocks[cur as usize] = blk;
    let f = Func { name: fd.name.clone(), ret: fd.ret, params, nregs: p.nregs, blocks };
    m.named = named;
    m.toks = toks;
    m.types = types;
    f
}
