//! Textual LLVM IR: indexing of a whole-program module and on-demand parsing of functions.
use crate::term::{Arena, FxMap, T};
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vec(u32, TyId),
    Other,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    T(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opr {
    R(u32),
    C(u64),
    K(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug)]
pub enum Callee {
    Sym(u32),
    Ptr(Opr),
    Asm,
}
#[derive(Clone, Debug)]
pub enum I {
    Bin { op: B, ty: TyId, dst: u32, a: Opr, b: Opr },
    ICmp { p: P, ty: TyId, dst: u32, a: Opr, b: Opr },
    FCmp { p: String, ty: TyId, dst: u32, a: Opr, b: Opr },
    FNeg { ty: TyId, dst: u32, a: Opr },
    Load { dst: u32, ty: TyId, ptr: Opr },
    Store { ty: TyId, val: Opr, ptr: Opr },
    Alloca { dst: u32, size: u64, n: Opr },
    Gep { dst: u32, base: Opr, off: i64, idx: Vec<(Opr, u32, i64)> },
    Cast { k: Cast, dst: u32, from: TyId, to: TyId, a: Opr },
    Select { dst: u32, c: Opr, ty: TyId, cty: TyId, a: Opr, b: Opr },
    Call { dst: u32, ret: TyId, callee: Callee, args: Vec<(Opr, TyId)>, normal: Option<u32> },
    ExtractV { dst: u32, a: Opr, idx: Vec<u32> },
    InsertV { dst: u32, ty: TyId, a: Opr, v: Opr, idx: Vec<u32> },
    ExtractE { dst: u32, ty: TyId, a: Opr, i: Opr },
    InsertE { dst: u32, ty: TyId, a: Opr, v: Opr, i: Opr },
    Shuffle { dst: u32, ty: TyId, a: Opr, b: Opr, mask: Vec<i32> },
    Rmw { dst: u32, op: String, ty: TyId, ptr: Opr, v: Opr },
    CmpXchg { dst: u32, ty: TyId, ptr: Opr, cmp: Opr, new: Opr },
    Copy { dst: u32, a: Opr },
    Nop,
    Br(u32),
    CondBr { c: Opr, t: u32, f: u32 },
    Switch { ty: TyId, v: Opr, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opr>, TyId),
    Unreachable,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: TyId,
    pub inc: Vec<(u32, Opr)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub sym: u32,
    pub params: Vec<(u32, TyId)>,
    pub ret: TyId,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    /// immediate post-dominator of each block (u32::MAX if none)
    pub ipdom: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SymKind {
    Def(usize, usize),
    Global(usize, usize),
    Decl,
}
pub struct Sym {
    pub name: String,
    pub kind: SymKind,
    pub func: Option<Rc<Func>>,
    pub short: String,
}

pub struct Module {
    pub src: Vec<u8>,
    pub syms: Vec<Sym>,
    pub symmap: HashMap<String, u32>,
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    lay: Vec<Option<(u64, u64)>>,
    named: HashMap<String, (usize, usize)>,
    named_id: HashMap<String, TyId>,
    pub pool: Vec<Val>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Meta(String),
    Grp,
    Label(String),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    i: usize,
    e: usize,
    cur: Tok,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'$' || c == b'-'
}
fn unescape(s: &[u8]) -> Vec<u8> {
    let mut r = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && s[i + 1].is_ascii_hexdigit() {
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            r.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            r.push(b'\\');
            i += 2;
        } else {
            r.push(s[i]);
            i += 1;
        }
    }
    r
}
impl<'a> Lex<'a> {
    fn new(s: &'a [u8], i: usize, e: usize) -> Lex<'a> {
        let mut l = Lex { s, i, e, cur: Tok::Eof };
        l.adv();
        l
    }
    fn adv(&mut self) -> Tok {
        let n = self.lex();
        std::mem::replace(&mut self.cur, n)
    }
    fn name(&mut self) -> String {
        // after sigil
        if self.i < self.e && self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.e && idc(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn lex(&mut self) -> Tok {
        let s = self.s;
        loop {
            if self.i >= self.e {
                return Tok::Eof;
            }
            let c = s[self.i];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.e && s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = s[self.i];
        let bol = self.i == 0 || s[self.i - 1] == b'\n';
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                Tok::Meta(self.name())
            }
            b'#' => {
                self.i += 1;
                self.name();
                Tok::Grp
            }
            b'"' => {
                let st = self.i + 1;
                self.i += 1;
                while s[self.i] != b'"' {
                    self.i += 1;
                }
                let r = s[st..self.i].to_vec();
                self.i += 1;
                if bol && self.i < self.e && s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(String::from_utf8_lossy(&r).into_owned());
                }
                Tok::Str(r)
            }
            b'c' if s[self.i + 1] == b'"' => {
                self.i += 2;
                let st = self.i;
                while s[self.i] != b'"' {
                    self.i += 1;
                }
                let r = unescape(&s[st..self.i]);
                self.i += 1;
                Tok::CStr(r)
            }
            b'.' if s[self.i..].starts_with(b"...") => {
                self.i += 3;
                Tok::Dots
            }
            _ if idc(c) => {
                let st = self.i;
                while self.i < self.e && (idc(s[self.i]) || (s[self.i] == b'+' && (s[self.i - 1] == b'e'))) {
                    self.i += 1;
                }
                let r = String::from_utf8_lossy(&s[st..self.i]).into_owned();
                if bol && self.i < self.e && s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(r);
                }
                if c.is_ascii_digit() || c == b'-' {
                    Tok::Num(r)
                } else {
                    Tok::Word(r)
                }
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn is(&self, c: u8) -> bool {
        self.cur == Tok::P(c)
    }
    fn isw(&self, w: &str) -> bool {
        matches!(&self.cur, Tok::Word(x) if x == w)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            let lo = self.i.saturating_sub(200);
            panic!("expected '{}' got {:?} near ...{}", c as char, self.cur, String::from_utf8_lossy(&self.s[lo..self.i]));
        }
    }
    fn skip_paren(&mut self) {
        // cur is '('
        let mut d = 0;
        loop {
            match self.adv() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof"),
                _ => {}
            }
        }
    }
    fn type_start(&self) -> bool {
        match &self.cur {
            Tok::Word(w) => {
                (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
                    || matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128" | "bfloat")
            }
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Local(_) => true,
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match &self.cur {
                Tok::Word(_) if !self.type_start() => {
                    let w = match self.adv() {
                        Tok::Word(w) => w,
                        _ => unreachable!(),
                    };
                    if self.is(b'(') {
                        self.skip_paren();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                Tok::Grp => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
}

pub fn short_name(n: &str) -> String {
    // strip v0 mangling crudely: keep identifier segments
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i <= 14 && !b[i + 1..j].iter().any(|c| !c.is_ascii_alphanumeric()) {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + l <= b.len() && l > 0 {
                out.push(String::from_utf8_lossy(&b[j..j + l]).into_owned());
                i = j + l;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

impl Module {
    pub fn load(src: Vec<u8>) -> Module {
        let mut m = Module {
            src,
            syms: vec![],
            symmap: HashMap::new(),
            tys: vec![],
            tymap: HashMap::new(),
            lay: vec![],
            named: HashMap::new(),
            named_id: HashMap::new(),
            pool: vec![],
        };
        m.ty(Ty::Void);
        let mut pos = 0;
        let n = m.src.len();
        let mut items: Vec<(u8, String, usize, usize)> = vec![];
        while pos < n {
            let eol = memchr(&m.src, pos, b'\n');
            let line = &m.src[pos..eol];
            if line.starts_with(b"@") {
                let mut l = Lex::new(&m.src, pos, eol);
                if let Tok::Global(g) = l.adv() {
                    items.push((b'@', g, pos, eol));
                }
            } else if line.starts_with(b"%") {
                let mut l = Lex::new(&m.src, pos, eol);
                if let Tok::Local(g) = l.adv() {
                    items.push((b'%', g, pos, eol));
                }
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let at = line.iter().position(|&c| c == b'@').unwrap();
                let mut l = Lex::new(&m.src, pos + at, eol);
                let g = match l.adv() {
                    Tok::Global(g) => g,
                    t => panic!("{:?}", t),
                };
                if line.starts_with(b"define") {
                    // find "\n}\n"
                    let mut e = eol;
                    loop {
                        let e2 = memchr(&m.src, e + 1, b'\n');
                        if m.src[e + 1] == b'}' {
                            e = e2;
                            break;
                        }
                        e = e2;
                    }
                    items.push((b'd', g, pos, e));
                    pos = e + 1;
                    continue;
                } else {
                    items.push((b'e', g, pos, eol));
                }
            }
            pos = eol + 1;
        }
        for (k, name, s, e) in items {
            match k {
                b'%' => {
                    m.named.insert(name, (s, e));
                }
                _ => {
                    let kind = match k {
                        b'@' => SymKind::Global(s, e),
                        b'd' => SymKind::Def(s, e),
                        _ => SymKind::Decl,
                    };
                    let id = m.syms.len() as u32;
                    m.symmap.insert(name.clone(), id);
                    let short = short_name(&name);
                    m.syms.push(Sym { name, kind, func: None, short });
                }
            }
        }
        m
    }
    pub fn sym_addr(&self, s: u32) -> u64 {
        match self.syms[s as usize].kind {
            SymKind::Global(..) => (GLOB_BASE + s as u64) << 32,
            _ => (FUNC_BASE + s as u64) << 32,
        }
    }
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.lay.push(None);
        self.tymap.insert(t, i);
        i
    }
    /// (size, align) in bytes
    pub fn layout(&mut self, t: TyId) -> (u64, u64) {
        if let Some(l) = self.lay[t as usize] {
            return l;
        }
        let up = |x: u64, a: u64| (x + a - 1) / a * a;
        let r = match self.tys[t as usize].clone() {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                let p = b.next_power_of_two();
                let a = p.min(16);
                (up(b, a), a)
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Arr(n, e) => {
                let (s, a) = self.layout(e);
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = match self.tys[e as usize] {
                    Ty::Int(w) => w,
                    Ty::F32 => 32,
                    _ => 64,
                } as u64
                    * n as u64;
                let b = (bits + 7) / 8;
                let p = b.next_power_of_two();
                (p, p)
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    let (s, a) = self.layout(x);
                    if !packed {
                        o = up(o, a);
                        al = al.max(a);
                    }
                    o += s;
                }
                (up(o, al), al)
            }
        };
        self.lay[t as usize] = Some(r);
        r
    }
    pub fn field_off(&mut self, t: TyId, i: usize) -> (u64, TyId) {
        match self.tys[t as usize].clone() {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, x) in f.iter().enumerate() {
                    let (s, a) = self.layout(*x);
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, *x);
                    }
                    o += s;
                }
                panic!()
            }
            Ty::Arr(_, e) => (self.layout(e).0 * i as u64, e),
            Ty::Vec(_, e) => (self.layout(e).0 * i as u64, e),
            _ => panic!(),
        }
    }
    /// scalar width in bits
    pub fn bits(&self, t: TyId) -> u32 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    fn parse_ty(&mut self, l: &mut Lex) -> TyId {
        let t = match l.adv() {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if l.isw("addrspace") {
                        l.adv();
                        l.skip_paren();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
                _ => Ty::Other,
            },
            Tok::P(b'{') => self.parse_struct(l, false),
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let t = self.parse_struct(l, true);
                    l.expect(b'>');
                    t
                } else {
                    let n = self.num(l);
                    l.adv(); // x
                    let e = self.parse_ty(l);
                    l.expect(b'>');
                    Ty::Vec(n as u32, e)
                }
            }
            Tok::P(b'[') => {
                let n = self.num(l);
                l.adv();
                let e = self.parse_ty(l);
                l.expect(b']');
                Ty::Arr(n, e)
            }
            Tok::Local(n) => return self.named_ty(&n),
            t => panic!("type? {:?}", t),
        };
        self.ty(t)
    }
    fn named_ty(&mut self, n: &str) -> TyId {
        if let Some(&i) = self.named_id.get(n) {
            return i;
        }
        let (s, e) = self.named[n];
        let src = std::mem::take(&mut self.src);
        let mut l = Lex::new(&src, s, e);
        l.adv();
        l.expect(b'=');
        l.adv(); // type
        let t = if l.isw("opaque") { self.ty(Ty::Other) } else { self.parse_ty(&mut l) };
        self.src = src;
        self.named_id.insert(n.to_string(), t);
        t
    }
    fn parse_struct(&mut self, l: &mut Lex, packed: bool) -> Ty {
        let mut f = vec![];
        while !l.eat(b'}') {
            f.push(self.parse_ty(l));
            l.eat(b',');
        }
        Ty::Struct(f, packed)
    }
    fn num(&mut self, l: &mut Lex) -> u64 {
        match l.adv() {
            Tok::Num(s) => s.parse().unwrap(),
            t => panic!("num? {:?}", t),
        }
    }
    pub fn zero(&mut self, ar: &mut Arena, t: TyId) -> Val {
        match self.tys[t as usize].clone() {
            Ty::Arr(n, e) => {
                let z = self.zero(ar, e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero(ar, e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|&x| self.zero(ar, x)).collect())),
            Ty::Int(w) if w > 64 => Val::T(ar.cst(w, 0)),
            _ => Val::C(0),
        }
    }
    /// Parse a constant of type t.
    fn parse_const(&mut self, l: &mut Lex, ar: &mut Arena, t: TyId) -> Val {
        match l.adv() {
            Tok::Num(s) => {
                let ty = self.tys[t as usize].clone();
                match ty {
                    Ty::Int(w) => {
                        let v: u128 = if let Some(x) = s.strip_prefix('-') {
                            (x.parse::<u128>().unwrap()).wrapping_neg()
                        } else {
                            s.parse().unwrap()
                        };
                        let v = v & crate::term::mask(w);
                        if w > 64 {
                            Val::T(ar.cst(w, v))
                        } else {
                            Val::C(v as u64)
                        }
                    }
                    Ty::F32 | Ty::F64 => {
                        let f: f64 = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            s.parse().unwrap()
                        };
                        if ty == Ty::F32 {
                            Val::C((f as f32).to_bits() as u64)
                        } else {
                            Val::C(f.to_bits())
                        }
                    }
                    _ => panic!("num const for {:?}", ty),
                }
            }
            Tok::Word(w) => match w.as_str() {
                h if h.starts_with("f0x") => Val::C(u64::from_str_radix(&h[3..], 16).unwrap()),
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" | "none" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(ar, t),
                "splat" => {
                    l.expect(b'(');
                    let et = self.parse_ty(l);
                    let v = self.parse_const(l, ar, et);
                    l.expect(b')');
                    let n = match self.tys[t as usize] {
                        Ty::Vec(n, _) => n as usize,
                        Ty::Arr(n, _) => n as usize,
                        _ => panic!(),
                    };
                    Val::A(Rc::new(vec![v; n]))
                }
                "getelementptr" => {
                    while !l.is(b'(') {
                        l.adv();
                        // inrange(..)
                    }
                    l.expect(b'(');
                    let et = self.parse_ty(l);
                    l.expect(b',');
                    let pt = self.parse_ty(l);
                    let base = match self.parse_const(l, ar, pt) {
                        Val::C(x) => x,
                        _ => panic!(),
                    };
                    let mut idx = vec![];
                    while l.eat(b',') {
                        let it = self.parse_ty(l);
                        match self.parse_const(l, ar, it) {
                            Val::C(x) => idx.push(crate::term::sx64(x, self.bits(it))),
                            _ => panic!(),
                        }
                    }
                    l.expect(b')');
                    let mut off = 0i64;
                    let mut cur = et;
                    for (k, &i) in idx.iter().enumerate() {
                        if k == 0 {
                            off += self.layout(et).0 as i64 * i;
                        } else {
                            let (o, f) = self.field_off(cur, i as usize);
                            off += o as i64;
                            cur = f;
                        }
                    }
                    Val::C(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                    l.expect(b'(');
                    let ft = self.parse_ty(l);
                    let v = self.parse_const(l, ar, ft);
                    l.adv(); // to
                    let tt = self.parse_ty(l);
                    l.expect(b')');
                    match v {
                        Val::C(x) => Val::C(x & crate::term::mask64(self.bits(tt).max(1))),
                        v => v,
                    }
                }
                "sub" | "add" | "xor" => {
                    while !l.is(b'(') {
                        l.adv();
                    }
                    l.expect(b'(');
                    let ft = self.parse_ty(l);
                    let a = self.parse_const(l, ar, ft);
                    l.expect(b',');
                    let ft2 = self.parse_ty(l);
                    let b = self.parse_const(l, ar, ft2);
                    l.expect(b')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => {
                            let r = match w.as_str() {
                                "sub" => a.wrapping_sub(b),
                                "add" => a.wrapping_add(b),
                                _ => a ^ b,
                            };
                            Val::C(r & crate::term::mask64(self.bits(ft)))
                        }
                        _ => panic!(),
                    }
                }
                "blockaddress" | "dso_local_equivalent" | "no_cfi" => {
                    l.skip_paren();
                    Val::C(0)
                }
                _ => panic!("const word {}", w),
            },
            Tok::Global(g) => {
                let s = *self.symmap.get(&g).unwrap_or_else(|| panic!("no symbol {}", g));
                Val::C(self.sym_addr(s))
            }
            Tok::CStr(s) => Val::A(Rc::new(s.iter().map(|&b| Val::C(b as u64)).collect())),
            Tok::P(b'<') => {
                let mut v = vec![];
                if l.eat(b'{') {
                    while !l.eat(b'}') {
                        let et = self.parse_ty(l);
                        v.push(self.parse_const(l, ar, et));
                        l.eat(b',');
                    }
                    l.expect(b'>');
                } else {
                    while !l.eat(b'>') {
                        let et = self.parse_ty(l);
                        v.push(self.parse_const(l, ar, et));
                        l.eat(b',');
                    }
                }
                Val::A(Rc::new(v))
            }
            Tok::P(b'{') => {
                let mut v = vec![];
                while !l.eat(b'}') {
                    let et = self.parse_ty(l);
                    v.push(self.parse_const(l, ar, et));
                    l.eat(b',');
                }
                Val::A(Rc::new(v))
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                while !l.eat(b']') {
                    let et = self.parse_ty(l);
                    v.push(self.parse_const(l, ar, et));
                    l.eat(b',');
                }
                Val::A(Rc::new(v))
            }
            t => panic!("const? {:?}", t),
        }
    }
    /// (type, init value if any, is_const, thread_local)
    pub fn parse_global(&mut self, ar: &mut Arena, s: u32) -> (TyId, Option<Val>, bool) {
        let (st, e) = match self.syms[s as usize].kind {
            SymKind::Global(a, b) => (a, b),
            _ => panic!("not global {}", self.syms[s as usize].name),
        };
        let src = std::mem::take(&mut self.src);
        let mut l = Lex::new(&src, st, e);
        l.adv();
        l.expect(b'=');
        let mut ext = false;
        let isc;
        loop {
            match l.adv() {
                Tok::Word(w) => {
                    if w == "external" || w == "extern_weak" {
                        ext = true;
                    }
                    if w == "global" || w == "constant" {
                        isc = w == "constant";
                        break;
                    }
                    if w == "alias" {
                        panic!("alias");
                    }
                    if l.is(b'(') {
                        l.skip_paren();
                    }
                }
                t => panic!("global {:?}", t),
            }
        }
        let t = self.parse_ty(&mut l);
        let v = if ext { None } else { Some(self.parse_const(&mut l, ar, t)) };
        self.src = src;
        (t, v, isc)
    }

    pub fn func(&mut self, ar: &mut Arena, s: u32) -> Option<Rc<Func>> {
        if let Some(f) = &self.syms[s as usize].func {
            return Some(f.clone());
        }
        let (st, e) = match self.syms[s as usize].kind {
            SymKind::Def(a, b) => (a, b),
            _ => return None,
        };
        let src = std::mem::take(&mut self.src);
        let f = Rc::new(self.parse_func(&src, st, e, ar, s));
        self.src = src;
        self.syms[s as usize].func = Some(f.clone());
        Some(f)
    }

    fn parse_func(&mut self, src: &[u8], st: usize, e: usize, ar: &mut Arena, sym: u32) -> Func {
        let mut l = Lex::new(src, st, e);
        l.adv(); // define
        l.skip_attrs();
        let ret = self.parse_ty(&mut l);
        let name = match l.adv() {
            Tok::Global(g) => g,
            t => panic!("{:?}", t),
        };
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut params = vec![];
        let mut unnamed = 0;
        l.expect(b'(');
        while !l.eat(b')') {
            if l.cur == Tok::Dots {
                l.adv();
                continue;
            }
            let t = self.parse_ty(&mut l);
            l.skip_attrs_param();
            let n = match &l.cur {
                Tok::Local(n) => {
                    let n = n.clone();
                    l.adv();
                    n
                }
                _ => {
                    let n = unnamed.to_string();
                    n
                }
            };
            if n == unnamed.to_string() {
                unnamed += 1;
            }
            let id = regs.len() as u32;
            regs.insert(n, id);
            params.push((id, t));
            l.eat(b',');
        }
        while !l.is(b'{') {
            l.adv();
        }
        l.expect(b'{');
        let mut pf = Pf { regs, labels: HashMap::new(), nlab: 0 };
        let mut blocks: Vec<(u32, Block)> = vec![];
        // entry label
        if let Tok::Label(_) = l.cur {
        } else {
            let id = pf.label(&unnamed.to_string());
            blocks.push((id, Block::default()));
        }
        loop {
            match &l.cur {
                Tok::P(b'}') | Tok::Eof => break,
                Tok::Label(n) => {
                    let id = pf.label(&n.clone());
                    l.adv();
                    blocks.push((id, Block::default()));
                }
                _ => {
                    let b = blocks.last_mut().unwrap();
                    let mut bb = std::mem::take(&mut b.1);
                    self.parse_inst(&mut l, ar, &mut pf, &mut bb);
                    blocks.last_mut().unwrap().1 = bb;
                }
            }
        }
        let n = blocks.len().max(pf.nlab as usize);
        let entry = blocks[0].0;
        let mut v: Vec<Block> = (0..n).map(|_| Block::default()).collect();
        for (i, b) in blocks {
            v[i as usize] = b;
        }
        assert_eq!(entry, 0, "entry label id in {}", name);
        let ipdom = ipdoms(&v);
        Func { name, sym, params, ret, nregs: pf.regs.len() as u32, blocks: v, ipdom }
    }

    fn operand(&mut self, l: &mut Lex, ar: &mut Arena, pf: &mut Pf, t: TyId) -> Opr {
        if let Tok::Local(n) = &l.cur {
            let r = pf.reg(&n.clone());
            l.adv();
            return Opr::R(r);
        }
        if l.isw("asm") {
            l.adv();
            return Opr::C(0);
        }
        match self.parse_const(l, ar, t) {
            Val::C(x) => Opr::C(x),
            v => {
                self.pool.push(v);
                Opr::K(self.pool.len() as u32 - 1)
            }
        }
    }
    fn skip_tail(&mut self, l: &mut Lex) {
        // trailing ", align N", ", !meta !n" etc.
        loop {
            if l.is(b',') {
                l.adv();
                match l.adv() {
                    Tok::Word(w) if w == "align" => {
                        l.adv();
                    }
                    Tok::Meta(_) => match &l.cur {
                        Tok::Meta(n) => {
                            let empty = n.is_empty();
                            l.adv();
                            if empty && l.is(b'{') {
                                while !l.eat(b'}') {
                                    l.adv();
                                }
                            }
                        }
                        _ => {}
                    },
                    t => panic!("tail {:?}", t),
                }
            } else {
                return;
            }
        }
    }
    fn parse_inst(&mut self, l: &mut Lex, ar: &mut Arena, pf: &mut Pf, bb: &mut Block) {
        let start = l.i;
        let mut dst = u32::MAX;
        if let Tok::Local(n) = &l.cur {
            dst = pf.reg(&n.clone());
            l.adv();
            l.expect(b'=');
        }
        let op = match l.adv() {
            Tok::Word(w) => w,
            t => panic!("inst {:?} at {}", t, String::from_utf8_lossy(&l.s[start.saturating_sub(100)..start + 50])),
        };
        let fm = |l: &mut Lex| loop {
            match &l.cur {
                Tok::Word(w)
                    if matches!(
                        w.as_str(),
                        "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "atomic" | "weak"
                    ) =>
                {
                    l.adv();
                }
                _ => break,
            }
        };
        let bin = match op.as_str() {
            "add" => Some(B::Add),
            "sub" => Some(B::Sub),
            "mul" => Some(B::Mul),
            "udiv" => Some(B::UDiv),
            "sdiv" => Some(B::SDiv),
            "urem" => Some(B::URem),
            "srem" => Some(B::SRem),
            "shl" => Some(B::Shl),
            "lshr" => Some(B::LShr),
            "ashr" => Some(B::AShr),
            "and" => Some(B::And),
            "or" => Some(B::Or),
            "xor" => Some(B::Xor),
            "fadd" => Some(B::FAdd),
            "fsub" => Some(B::FSub),
            "fmul" => Some(B::FMul),
            "fdiv" => Some(B::FDiv),
            "frem" => Some(B::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            fm(l);
            let t = self.parse_ty(l);
            let x = self.operand(l, ar, pf, t);
            l.expect(b',');
            let y = self.operand(l, ar, pf, t);
            self.skip_tail(l);
            bb.insts.push(I::Bin { op: b, ty: t, dst, a: x, b: y });
            return;
        }
        let cast = match op.as_str() {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" => Some(Cast::Bitcast),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            _ => None,
        };
        if let Some(k) = cast {
            fm(l);
            let from = self.parse_ty(l);
            let a = self.operand(l, ar, pf, from);
            l.adv(); // to
            let to = self.parse_ty(l);
            self.skip_tail(l);
            bb.insts.push(I::Cast { k, dst, from, to, a });
            return;
        }
        match op.as_str() {
            "icmp" => {
                fm(l);
                let p = match l.adv() {
                    Tok::Word(w) => match w.as_str() {
                        "eq" => P::Eq,
                        "ne" => P::Ne,
                        "ugt" => P::Ugt,
                        "uge" => P::Uge,
                        "ult" => P::Ult,
                        "ule" => P::Ule,
                        "sgt" => P::Sgt,
                        "sge" => P::Sge,
                        "slt" => P::Slt,
                        "sle" => P::Sle,
                        _ => panic!("{}", w),
                    },
                    t => panic!("{:?}", t),
                };
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let b = self.operand(l, ar, pf, t);
                self.skip_tail(l);
                bb.insts.push(I::ICmp { p, ty: t, dst, a, b });
            }
            "fcmp" => {
                fm(l);
                let p = match l.adv() {
                    Tok::Word(w) => w,
                    _ => panic!(),
                };
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let b = self.operand(l, ar, pf, t);
                self.skip_tail(l);
                bb.insts.push(I::FCmp { p, ty: t, dst, a, b });
            }
            "fneg" => {
                fm(l);
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                self.skip_tail(l);
                bb.insts.push(I::FNeg { ty: t, dst, a });
            }
            "phi" => {
                fm(l);
                let t = self.parse_ty(l);
                let mut inc = vec![];
                loop {
                    l.expect(b'[');
                    let v = self.operand(l, ar, pf, t);
                    l.expect(b',');
                    let lab = match l.adv() {
                        Tok::Local(n) => pf.label(&n),
                        t => panic!("{:?}", t),
                    };
                    l.expect(b']');
                    inc.push((lab, v));
                    // another incoming?
                    if l.is(b',') {
                        let save = (l.i, l.cur.clone());
                        l.adv();
                        if l.is(b'[') {
                            continue;
                        }
                        l.i = save.0;
                        l.cur = save.1;
                    }
                    break;
                }
                self.skip_tail(l);
                bb.phis.push(Phi { dst, ty: t, inc });
            }
            "load" => {
                fm(l);
                let t = self.parse_ty(l);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let p = self.operand(l, ar, pf, pt);
                self.skip_order(l);
                self.skip_tail(l);
                bb.insts.push(I::Load { dst, ty: t, ptr: p });
            }
            "store" => {
                fm(l);
                let t = self.parse_ty(l);
                let v = self.operand(l, ar, pf, t);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let p = self.operand(l, ar, pf, pt);
                self.skip_order(l);
                self.skip_tail(l);
                bb.insts.push(I::Store { ty: t, val: v, ptr: p });
            }
            "alloca" => {
                fm(l);
                let t = self.parse_ty(l);
                let size = self.layout(t).0;
                let mut n = Opr::C(1);
                if l.is(b',') {
                    let save = (l.i, l.cur.clone());
                    l.adv();
                    if l.type_start() {
                        let nt = self.parse_ty(l);
                        n = self.operand(l, ar, pf, nt);
                    } else {
                        l.i = save.0;
                        l.cur = save.1;
                    }
                }
                self.skip_tail(l);
                bb.insts.push(I::Alloca { dst, size, n });
            }
            "getelementptr" => {
                fm(l);
                let et = self.parse_ty(l);
                l.expect(b',');
                let pt = self.parse_ty(l);
                let base = self.operand(l, ar, pf, pt);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut k = 0;
                loop {
                    if !l.is(b',') {
                        break;
                    }
                    let save = (l.i, l.cur.clone());
                    l.adv();
                    if let Tok::Meta(_) = l.cur {
                        l.i = save.0;
                        l.cur = save.1;
                        break;
                    }
                    let it = self.parse_ty(l);
                    let o = self.operand(l, ar, pf, it);
                    let w = self.bits(it);
                    if k == 0 {
                        let s = self.layout(et).0 as i64;
                        match o {
                            Opr::C(x) => off += s * crate::term::sx64(x, w),
                            _ => idx.push((o, w, s)),
                        }
                    } else {
                        match o {
                            Opr::C(x) if matches!(self.tys[cur as usize], Ty::Struct(..)) => {
                                let (fo, ft) = self.field_off(cur, x as usize);
                                off += fo as i64;
                                cur = ft;
                            }
                            _ => {
                                let (_, ft) = self.field_off(cur, 0);
                                let s = self.layout(ft).0 as i64;
                                match o {
                                    Opr::C(x) => off += s * crate::term::sx64(x, w),
                                    _ => idx.push((o, w, s)),
                                }
                                cur = ft;
                            }
                        }
                    }
                    k += 1;
                }
                self.skip_tail(l);
                if matches!(self.tys[pt as usize], Ty::Vec(..)) {
                    bb.insts.push(I::Unsupported("vector gep".into()));
                } else {
                    bb.insts.push(I::Gep { dst, base, off, idx });
                }
            }
            "select" => {
                fm(l);
                let cty = self.parse_ty(l);
                let c = self.operand(l, ar, pf, cty);
                l.expect(b',');
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = self.operand(l, ar, pf, t2);
                self.skip_tail(l);
                bb.insts.push(I::Select { dst, c, ty: t, cty, a, b });
            }
            "freeze" => {
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                self.skip_tail(l);
                bb.insts.push(I::Copy { dst, a });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    l.adv();
                }
                fm(l);
                l.skip_attrs();
                let ret = self.parse_ty(l);
                if l.is(b'(') {
                    l.skip_paren();
                }
                let callee = match l.adv() {
                    Tok::Global(g) => Callee::Sym(*self.symmap.get(&g).unwrap_or_else(|| panic!("callee {}", g))),
                    Tok::Local(n) => Callee::Ptr(Opr::R(pf.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        while !l.is(b'(') {
                            l.adv();
                        }
                        Callee::Asm
                    }
                    Tok::Word(w) if w == "inttoptr" => {
                        l.expect(b'(');
                        let ft = self.parse_ty(l);
                        let v = self.operand(l, ar, pf, ft);
                        l.adv();
                        self.parse_ty(l);
                        l.expect(b')');
                        Callee::Ptr(v)
                    }
                    t => panic!("callee {:?}", t),
                };
                l.expect(b'(');
                let mut args = vec![];
                while !l.eat(b')') {
                    let t = self.parse_ty(l);
                    if self.tys[t as usize] == Ty::Other {
                        // metadata argument
                        let mut d = 0;
                        loop {
                            match &l.cur {
                                Tok::P(b'(') => d += 1,
                                Tok::P(b')') if d == 0 => break,
                                Tok::P(b')') => d -= 1,
                                Tok::P(b',') if d == 0 => break,
                                _ => {}
                            }
                            l.adv();
                        }
                        l.eat(b',');
                        continue;
                    }
                    l.skip_attrs_param();
                    let v = self.operand(l, ar, pf, t);
                    args.push((v, t));
                    l.eat(b',');
                }
                // function attributes / bundles
                loop {
                    match &l.cur {
                        Tok::Grp => {
                            l.adv();
                        }
                        Tok::P(b'[') => {
                            // operand bundle
                            let mut d = 0;
                            loop {
                                match l.adv() {
                                    Tok::P(b'[') => d += 1,
                                    Tok::P(b']') => {
                                        d -= 1;
                                        if d == 0 {
                                            break;
                                        }
                                    }
                                    _ => {}
                                }
                            }
                        }
                        Tok::Word(w) if op != "invoke" || w != "to" => {
                            // attribute word on a call (e.g. "nounwind", "memory(none)")
                            if l.is_inst_word() {
                                break;
                            }
                            l.adv();
                            if l.is(b'(') {
                                l.skip_paren();
                            }
                        }
                        _ => break,
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    assert!(l.eatw("to"));
                    assert!(l.eatw("label"));
                    normal = match l.adv() {
                        Tok::Local(n) => Some(pf.label(&n)),
                        t => panic!("{:?}", t),
                    };
                    assert!(l.eatw("unwind"));
                    assert!(l.eatw("label"));
                    if let Tok::Local(n) = l.adv() {
                        pf.label(&n);
                    }
                }
                self.skip_tail(l);
                bb.insts.push(I::Call { dst, ret, callee, args, normal });
            }
            "extractvalue" => {
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                let idx = self.idx_list(l);
                self.skip_tail(l);
                bb.insts.push(I::ExtractV { dst, a, idx });
            }
            "insertvalue" => {
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let vt = self.parse_ty(l);
                let v = self.operand(l, ar, pf, vt);
                let idx = self.idx_list(l);
                self.skip_tail(l);
                bb.insts.push(I::InsertV { dst, ty: t, a, v, idx });
            }
            "extractelement" => {
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let it = self.parse_ty(l);
                let i = self.operand(l, ar, pf, it);
                self.skip_tail(l);
                bb.insts.push(I::ExtractE { dst, ty: t, a, i });
            }
            "insertelement" => {
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let vt = self.parse_ty(l);
                let v = self.operand(l, ar, pf, vt);
                l.expect(b',');
                let it = self.parse_ty(l);
                let i = self.operand(l, ar, pf, it);
                self.skip_tail(l);
                bb.insts.push(I::InsertE { dst, ty: t, a, v, i });
            }
            "shufflevector" => {
                let t = self.parse_ty(l);
                let a = self.operand(l, ar, pf, t);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let b = self.operand(l, ar, pf, t2);
                l.expect(b',');
                let mt = self.parse_ty(l);
                let n = match self.tys[mt as usize] {
                    Ty::Vec(n, _) => n as usize,
                    _ => panic!(),
                };
                let mut mask = vec![];
                if l.is(b'<') {
                    l.adv();
                    while !l.eat(b'>') {
                        self.parse_ty(l);
                        match l.adv() {
                            Tok::Num(s) => mask.push(s.parse().unwrap()),
                            _ => mask.push(-1),
                        }
                        l.eat(b',');
                    }
                } else if l.isw("splat") {
                    l.adv();
                    l.expect(b'(');
                    self.parse_ty(l);
                    match l.adv() {
                        Tok::Num(s) => mask = vec![s.parse().unwrap(); n],
                        t => panic!("{:?}", t),
                    }
                    l.expect(b')');
                } else {
                    let z = l.isw("zeroinitializer");
                    l.adv();
                    mask = vec![if z { 0 } else { -1 }; n];
                }
                self.skip_tail(l);
                bb.insts.push(I::Shuffle { dst, ty: t, a, b, mask });
            }
            "atomicrmw" => {
                fm(l);
                let rop = match l.adv() {
                    Tok::Word(w) => w,
                    _ => panic!(),
                };
                let pt = self.parse_ty(l);
                let p = self.operand(l, ar, pf, pt);
                l.expect(b',');
                let t = self.parse_ty(l);
                let v = self.operand(l, ar, pf, t);
                self.skip_order(l);
                self.skip_tail(l);
                bb.insts.push(I::Rmw { dst, op: rop, ty: t, ptr: p, v });
            }
            "cmpxchg" => {
                fm(l);
                let pt = self.parse_ty(l);
                let p = self.operand(l, ar, pf, pt);
                l.expect(b',');
                let t = self.parse_ty(l);
                let c = self.operand(l, ar, pf, t);
                l.expect(b',');
                let t2 = self.parse_ty(l);
                let v = self.operand(l, ar, pf, t2);
                self.skip_order(l);
                self.skip_tail(l);
                bb.insts.push(I::CmpXchg { dst, ty: t, ptr: p, cmp: c, new: v });
            }
            "fence" => {
                self.skip_order(l);
                self.skip_tail(l);
                bb.insts.push(I::Nop);
            }
            "br" => {
                let t = self.parse_ty(l);
                if self.tys[t as usize] == Ty::Other {
                    let x = match l.adv() {
                        Tok::Local(n) => pf.label(&n),
                        t => panic!("{:?}", t),
                    };
                    self.skip_tail(l);
                    bb.insts.push(I::Br(x));
                } else {
                    let c = self.operand(l, ar, pf, t);
                    l.expect(b',');
                    l.adv();
                    let x = match l.adv() {
                        Tok::Local(n) => pf.label(&n),
                        t => panic!("{:?}", t),
                    };
                    l.expect(b',');
                    l.adv();
                    let y = match l.adv() {
                        Tok::Local(n) => pf.label(&n),
                        t => panic!("{:?}", t),
                    };
                    self.skip_tail(l);
                    bb.insts.push(I::CondBr { c, t: x, f: y });
                }
            }
            "switch" => {
                let t = self.parse_ty(l);
                let v = self.operand(l, ar, pf, t);
                l.expect(b',');
                l.adv();
                let def = match l.adv() {
                    Tok::Local(n) => pf.label(&n),
                    t => panic!("{:?}", t),
                };
                l.expect(b'[');
                let mut cases = vec![];
                while !l.eat(b']') {
                    let ct = self.parse_ty(l);
                    let c = match self.parse_const(l, ar, ct) {
                        Val::C(x) => x,
                        _ => panic!(),
                    };
                    l.expect(b',');
                    l.adv();
                    let x = match l.adv() {
                        Tok::Local(n) => pf.label(&n),
                        t => panic!("{:?}", t),
                    };
                    cases.push((c, x));
                }
                self.skip_tail(l);
                bb.insts.push(I::Switch { ty: t, v, def, cases });
            }
            "ret" => {
                let t = self.parse_ty(l);
                if self.tys[t as usize] == Ty::Void {
                    self.skip_tail(l);
                    bb.insts.push(I::Ret(None, t));
                } else {
                    let v = self.operand(l, ar, pf, t);
                    self.skip_tail(l);
                    bb.insts.push(I::Ret(Some(v), t));
                }
            }
            "unreachable" => {
                self.skip_tail(l);
                bb.insts.push(I::Unreachable);
            }
            "resume" => {
                let t = self.parse_ty(l);
                self.operand(l, ar, pf, t);
                self.skip_tail(l);
                bb.insts.push(I::Unsupported("resume".into()));
            }
            "landingpad" => {
                self.parse_ty(l);
                loop {
                    if l.eatw("cleanup") {
                        continue;
                    }
                    if l.isw("catch") || l.isw("filter") {
                        l.adv();
                        let t = self.parse_ty(l);
                        self.parse_const(l, ar, t);
                        continue;
                    }
                    break;
                }
                self.skip_tail(l);
                bb.insts.push(I::Unsupported("landingpad".into()));
            }
            _ => panic!("instruction {} near {}", op, String::from_utf8_lossy(&l.s[start..(start + 120).min(l.s.len())])),
        }
    }
    fn idx_list(&mut self, l: &mut Lex) -> Vec<u32> {
        let mut v = vec![];
        loop {
            if !l.is(b',') {
                return v;
            }
            let save = (l.i, l.cur.clone());
            l.adv();
            match &l.cur {
                Tok::Num(s) => {
                    v.push(s.parse().unwrap());
                    l.adv();
                }
                _ => {
                    l.i = save.0;
                    l.cur = save.1;
                    return v;
                }
            }
        }
    }
    fn skip_order(&mut self, l: &mut Lex) {
        loop {
            match &l.cur {
                Tok::Word(w) if matches!(w.as_str(), "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") => {
                    l.adv();
                }
                Tok::Word(w) if w == "syncscope" => {
                    l.adv();
                    l.skip_paren();
                }
                _ => return,
            }
        }
    }
}
impl<'a> Lex<'a> {
    fn skip_attrs_param(&mut self) {
        loop {
            match &self.cur {
                Tok::Word(w) => {
                    if w.starts_with("f0x") || matches!(
                        w.as_str(),
                        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "asm"
                    ) {
                        return;
                    }
                    let w = w.clone();
                    self.adv();
                    if self.is(b'(') {
                        self.skip_paren();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                Tok::Str(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn is_inst_word(&self) -> bool {
        match &self.cur {
            Tok::Word(w) => matches!(
                w.as_str(),
                "br" | "ret" | "store" | "call" | "tail" | "musttail" | "notail" | "switch" | "unreachable" | "fence" | "invoke" | "resume"
            ),
            _ => false,
        }
    }
}
struct Pf {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nlab: u32,
}
impl Pf {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let id = self.regs.len() as u32;
        self.regs.insert(n.to_string(), id);
        id
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) {
            return r;
        }
        let id = self.nlab;
        self.nlab += 1;
        self.labels.insert(n.to_string(), id);
        id
    }
}
fn memchr(s: &[u8], from: usize, c: u8) -> usize {
    match s[from.min(s.len())..].iter().position(|&x| x == c) {
        Some(p) => from + p,
        None => s.len(),
    }
}
pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(I::Br(x)) => vec![*x],
        Some(I::CondBr { t, f, .. }) => vec![*t, *f],
        Some(I::Switch { def, cases, .. }) => {
            let mut v = vec![*def];
            v.extend(cases.iter().map(|c| c.1));
            v
        }
        Some(I::Call { normal: Some(x), .. }) => vec![*x],
        _ => vec![],
    }
}
/// Immediate post-dominators by the iterative algorithm on the reverse CFG; blocks that end in
/// unreachable are ignored (they do not constrain where control re-joins).
fn ipdoms(bl: &[Block]) -> Vec<u32> {
    let n = bl.len();
    const NO: u32 = u32::MAX;
    let sc: Vec<Vec<u32>> = bl.iter().map(succs).collect();
    // blocks that can reach a Ret
    let mut pred: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in sc.iter().enumerate() {
        for &t in s {
            pred[t as usize].push(i as u32);
        }
    }
    let mut good = vec![false; n];
    let mut st: Vec<u32> = (0..n as u32).filter(|&i| matches!(bl[i as usize].insts.last(), Some(I::Ret(..)))).collect();
    for &x in &st {
        good[x as usize] = true;
    }
    let exits = st.clone();
    while let Some(x) = st.pop() {
        for &p in &pred[x as usize] {
            if !good[p as usize] {
                good[p as usize] = true;
                st.push(p);
            }
        }
    }
    // order: post order of reverse CFG from virtual exit n
    let mut order = vec![];
    let mut seen = vec![false; n];
    for &e in &exits {
        let mut stack = vec![(e, 0usize)];
        if seen[e as usize] {
            continue;
        }
        seen[e as usize] = true;
        while let Some((x, k)) = stack.pop() {
            if k < pred[x as usize].len() {
                stack.push((x, k + 1));
                let p = pred[x as usize][k];
                if good[p as usize] && !seen[p as usize] {
                    seen[p as usize] = true;
                    stack.push((p, 0));
                }
            } else {
                order.push(x);
            }
        }
    }
    let mut num: FxMap<u32, u32> = Default::default();
    for (i, &x) in order.iter().enumerate() {
        num.insert(x, i as u32);
    }
    let virt = n as u32;
    num.insert(virt, order.len() as u32);
    let mut ip = vec![NO; n + 1];
    ip[n] = virt;
    for &e in &exits {
        let _ = e;
    }
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            let mut new = NO;
            let mut ss: Vec<u32> = sc[x as usize].iter().copied().filter(|&s| good[s as usize]).collect();
            if matches!(bl[x as usize].insts.last(), Some(I::Ret(..))) {
                ss = vec![virt];
            }
            for s in ss {
                if ip[s as usize] == NO {
                    continue;
                }
                if new == NO {
                    new = s;
                } else {
                    let (mut a, mut b) = (new, s);
                    while a != b {
                        while num[&a] < num[&b] {
                            a = ip[a as usize];
                        }
                        while num[&b] < num[&a] {
                            b = ip[b as usize];
                        }
                    }
                    new = a;
                }
            }
            if new != NO && ip[x as usize] != new {
                ip[x as usize] = new;
                changed = true;
            }
        }
    }
    ip.truncate(n);
    for x in ip.iter_mut() {
        if *x == virt {
            *x = NO;
        }
    }
    ip
}
