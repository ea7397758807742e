//! The symbolic machine: states, memory, instruction semantics, forking and merging.
use crate::ll::*;
use crate::smt::{Res, Smt};
use crate::term::{mask64, sx64, Arena, FxMap, Op, T, NONE};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    /// the exact size when it is not a constant (`size` is then an upper bound)
    pub ssz: T,
    pub data: Vec<u8>,
    pub sym: Option<Vec<T>>,
    pub alive: bool,
    pub ro: bool,
}
impl Obj {
    pub fn new(size: u64, fill: u8) -> Obj {
        Obj { size, ssz: NONE, data: vec![fill; size as usize], sym: None, alive: true, ro: false }
    }
    pub fn term(&self, i: u64) -> T {
        match &self.sym {
            Some(s) => s[i as usize],
            None => NONE,
        }
    }
    pub fn set_c(&mut self, i: u64, b: u8) {
        self.data[i as usize] = b;
        if let Some(s) = &mut self.sym {
            s[i as usize] = NONE;
        }
    }
    pub fn set_t(&mut self, i: u64, t: T) {
        if self.sym.is_none() {
            self.sym = Some(vec![NONE; self.size as usize]);
        }
        self.sym.as_mut().unwrap()[i as usize] = t;
    }
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub ip: usize,
    pub prev: u32,
    pub stack_base: usize,
    pub ret_dst: u32,
    pub normal: Option<u32>,
}

pub struct Model {
    pub gen: u32,
    pub v: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub heap: Vec<Rc<Obj>>,
    pub stack: Vec<Rc<Obj>>,
    pub globals: FxMap<u32, Rc<Obj>>,
    pub pc: Vec<T>,
    pub known: FxMap<T, T>,
    pub known_sup: u32,
    pub kver: u64,
    pub model: Rc<Model>,
    pub log: Vec<T>,
    pub steps: u64,
    pub forks: u32,
    pub spec: u32,
    pub spec_stop: Option<(usize, u32)>,
    pub spec_hit: bool,
    pub spec_phis: Vec<Val>,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Violation(String, String),
    Infeasible,
    Engine(String),
    Bound(String),
    Done,
    Exit,
    Merge,
}
type R<X> = Result<X, Stop>;

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub trace: Vec<String>,
}

#[derive(Clone)]
enum H {
    Func(Rc<Func>),
    Intr(Rc<String>),
    Panic,
}

pub struct Config {
    pub merge: bool,
    pub max_steps: u64,
    pub max_alloc: u64,
    pub deadline: Instant,
    pub params: Vec<i64>,
    pub inputs: Option<Vec<u64>>,
    pub trace: bool,
    pub max_viol: usize,
    pub verbose: bool,
    pub merge_limit: usize,
    pub loop_merge: u32,
}

pub struct Mach {
    pub ar: Arena,
    pub m: Module,
    pub smt: Smt,
    pub cfg: Config,
    handlers: Vec<Option<H>>,
    consts: FxMap<u32, Rc<Obj>>,
    pub work: Vec<State>,
    pub viols: Vec<Viol>,
    pub covers: BTreeMap<u32, u64>,
    pub ends: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    /// where states are forked (LSYM_PROF)
    pub prof: bool,
    pub profile: BTreeMap<String, u64>,
    pub steps: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub paths: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub unknown_branches: u64,
    pub unknown_checks: u64,
    pub lin_checks: u64,
    pub symvars_max: usize,
    gen: u32,
    kver: u64,
    memo: FxMap<T, T>,
    memo_ver: u64,
    region: FxMap<(u32, u32), bool>,
    /// registers defined in a cyclic region and used after it
    liveout: FxMap<(u32, u32), Rc<Vec<(u32, TyId)>>>,
    merge_stats: FxMap<(u32, u32), (u32, u32)>,
    pub vio_seen: BTreeSet<String>,
    pub errors: Vec<String>,
    pub recent: Vec<Rc<Model>>,
    pub lin: crate::lin::LinStats,
    pub input_pos: usize,
    pub slots: FxMap<(usize, u32), T>,
    /// opaque variables standing for floating point values: numerator, k, bound, width
    pub fx: FxMap<T, (T, u32, u64, u32)>,
    pub fx_rev: FxMap<(T, u32, u32), T>,
    pub outputs: Vec<u64>,
    pub witness: Vec<Vec<u64>>,
}

pub const STACK_BASE: u64 = 0x1000_0000;

macro_rules! eng {
    ($($a:tt)*) => { return Err(Stop::Engine(format!($($a)*))) };
}

impl Mach {
    pub fn fresh_gen(&mut self) -> u32 {
        self.gen += 1;
        self.gen
    }
    pub fn new(m: Module, cfg: Config) -> Mach {
        let n = m.syms.len();
        Mach {
            ar: Arena::new(),
            m,
            smt: Smt::new(),
            cfg,
            handlers: vec![None; n],
            consts: Default::default(),
            work: vec![],
            viols: vec![],
            covers: Default::default(),
            ends: Default::default(),
            funcs: Default::default(),
            prof: std::env::var("LSYM_PROF").is_ok(),
            profile: Default::default(),
            steps: 0,
            forks: 0,
            merges: 0,
            merge_fail: 0,
            paths: 0,
            checks: 0,
            checks_trivial: 0,
            unknown_branches: 0,
            unknown_checks: 0,
            lin_checks: 0,
            symvars_max: 0,
            gen: 1,
            kver: 1,
            memo: Default::default(),
            memo_ver: 0,
            region: Default::default(),
            liveout: Default::default(),
            merge_stats: Default::default(),
            vio_seen: Default::default(),
            errors: vec![],
            recent: vec![],
            lin: Default::default(),
            input_pos: 0,
            slots: Default::default(),
            fx: Default::default(),
            fx_rev: Default::default(),
            outputs: vec![],
            witness: vec![],
        }
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let s = *self.m.symmap.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = self.m.func(&mut self.ar, s).expect("entry has no body");
        let mut st = State {
            frames: vec![],
            heap: vec![Rc::new(Obj { size: 0, ssz: NONE, data: vec![], sym: None, alive: false, ro: true })],
            stack: vec![],
            globals: Default::default(),
            pc: vec![],
            known: Default::default(),
            known_sup: 0,
            kver: 0,
            model: Rc::new(Model { gen: 1, v: vec![] }),
            log: vec![],
            steps: 0,
            forks: 0,
            spec: 0,
            spec_stop: None,
            spec_hit: false,
            spec_phis: vec![],
        };
        self.push_frame(&mut st, f, vec![], u32::MAX, None);
        st
    }
    fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, dst: u32, normal: Option<u32>) {
        self.funcs.insert(f.sym);
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (k, (r, _)) in f.params.iter().enumerate() {
            if k < args.len() {
                regs[*r as usize] = args[k].clone();
            }
        }
        let sb = st.stack.len();
        st.frames.push(Frame { func: f, regs, bb: 0, ip: 0, prev: u32::MAX, stack_base: sb, ret_dst: dst, normal });
    }

    // ---- values --------------------------------------------------------------------------
    pub fn norm(&self, t: T) -> Val {
        if self.ar.w(t) <= 64 {
            if let Some(k) = self.ar.as_const(t) {
                return Val::C(k as u64);
            }
        }
        Val::T(t)
    }
    pub fn tv(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(x) => self.ar.cst(w, *x as u128),
            Val::T(t) => {
                debug_assert_eq!(self.ar.w(*t), w);
                *t
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    fn get(&mut self, st: &State, o: Opr) -> Val {
        match o {
            Opr::R(r) => {
                let v = &st.frames.last().unwrap().regs[r as usize];
                match v {
                    Val::T(t) => {
                        if !st.known.is_empty() {
                            if let Some(&k) = st.known.get(t) {
                                return self.norm(k);
                            }
                        }
                        Val::T(*t)
                    }
                    v => v.clone(),
                }
            }
            Opr::C(x) => Val::C(x),
            Opr::K(k) => self.m.pool[k as usize].clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, dst: u32, v: Val) {
        if dst != u32::MAX {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
    }

    // ---- path conditions -------------------------------------------------------------------
    pub fn eval(&mut self, st: &State, t: T) -> u128 {
        self.ar.eval(t, st.model.gen, &st.model.v)
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut sup = self.ar.i(c).sup;
        let mut out = vec![c];
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for (k, &p) in st.pc.iter().enumerate() {
                if !used[k] {
                    let s = self.ar.i(p).sup;
                    if self.ar.sup_overlap(sup, s) {
                        used[k] = true;
                        out.push(p);
                        let ns = self.ar.sup_join(sup, s);
                        if ns != sup {
                            sup = ns;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Is pc && c satisfiable?  Returns a model of the whole path condition if so.
    pub fn query(&mut self, st: &State, c: T) -> Result<Option<Rc<Model>>, ()> {
        let cs = self.slice(st, c);
        // recent models may already witness it
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            if m.gen == st.model.gen {
                continue;
            }
            if self.ar.eval(c, m.gen, &m.v) == 1 && cs.iter().all(|&x| self.ar.eval(x, m.gen, &m.v) == 1) {
                let mut s = 0;
                for &x in &cs {
                    let xs = self.ar.i(x).sup;
                    s = self.ar.sup_join(s, xs);
                }
                let mut v = st.model.v.clone();
                v.resize(self.ar.nvars as usize, 0);
                for id in self.ar.sup_vars(s) {
                    v[id as usize] = *m.v.get(id as usize).unwrap_or(&0);
                }
                self.gen += 1;
                return Ok(Some(Rc::new(Model { gen: self.gen, v })));
            }
        }
        match self.smt.check(&mut self.ar, &cs) {
            Res::Sat(vals) => {
                let mut v = st.model.v.clone();
                v.resize(self.ar.nvars as usize, 0);
                for (id, x) in vals {
                    v[id as usize] = x;
                }
                self.gen += 1;
                let m = Rc::new(Model { gen: self.gen, v });
                for &x in &cs {
                    if self.ar.eval(x, m.gen, &m.v) != 1 {
                        self.errors.push("solver model does not satisfy the query".into());
                        return Err(());
                    }
                }
                self.recent.push(m.clone());
                if self.recent.len() > 8 {
                    self.recent.remove(0);
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(()),
        }
    }
    pub fn add(&mut self, st: &mut State, c: T) {
        if c == self.ar.tt {
            return;
        }
        let n = self.ar.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = self.ar.n(n.a);
            if m.op == Op::Or {
                let x = self.ar.not(m.a);
                let y = self.ar.not(m.b);
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        if st.known.get(&c) == Some(&self.ar.tt) {
            return;
        }
        st.pc.push(c);
        let (tt, ff) = (self.ar.tt, self.ar.ff);
        st.known.insert(c, tt);
        let nc = self.ar.not(c);
        st.known.insert(nc, ff);
        if n.op == Op::Eq && self.ar.is_const(n.b) {
            st.known.insert(n.a, n.b);
            let s = self.ar.i(n.a).sup;
            st.known_sup = self.ar.sup_join(st.known_sup, s);
        } else if n.w == 1 && !matches!(n.op, Op::Eq | Op::Ult | Op::Slt | Op::Or | Op::And) {
            let s = self.ar.i(c).sup;
            st.known_sup = self.ar.sup_join(st.known_sup, s);
        }
        self.kver += 1;
        st.kver = self.kver;
    }
    /// Replace sub-terms with values fixed by the path condition.
    pub fn subst(&mut self, st: &State, t: T) -> T {
        if st.known.is_empty() {
            return t;
        }
        if let Some(&k) = st.known.get(&t) {
            return k;
        }
        if st.known_sup == 0 || !self.ar.sup_overlap(self.ar.i(t).sup, st.known_sup) {
            return t;
        }
        if self.memo_ver != st.kver {
            self.memo.clear();
            self.memo_ver = st.kver;
        }
        self.subst_rec(st, t, 0)
    }
    fn subst_rec(&mut self, st: &State, t: T, d: u32) -> T {
        if d > 2000 {
            return t;
        }
        if let Some(&k) = st.known.get(&t) {
            return k;
        }
        let n = self.ar.n(t);
        if n.op == Op::Const || n.op == Op::Var {
            return t;
        }
        if !self.ar.sup_overlap(self.ar.i(t).sup, st.known_sup) {
            return t;
        }
        if let Some(&r) = self.memo.get(&t) {
            return r;
        }
        let a = self.subst_rec(st, n.a, d + 1);
        let r = if n.op == Op::Ite {
            if a == self.ar.tt {
                self.subst_rec(st, n.b, d + 1)
            } else if a == self.ar.ff {
                self.subst_rec(st, n.c, d + 1)
            } else {
                let b = self.subst_rec(st, n.b, d + 1);
                let c = self.subst_rec(st, n.c, d + 1);
                self.ar.ite(a, b, c)
            }
        } else {
            let b = if n.b != NONE { self.subst_rec(st, n.b, d + 1) } else { NONE };
            if a == n.a && b == n.b {
                t
            } else {
                self.ar.rebuild(n, a, b, NONE)
            }
        };
        let r = st.known.get(&r).copied().unwrap_or(r);
        self.memo.insert(t, r);
        r
    }

    /// Decide a condition on this path: Some(b) when it has only one value, None when both are
    /// possible (then `other` is a model for the side the current model does not take).
    fn decide(&mut self, st: &mut State, c: T) -> R<(bool, Option<Rc<Model>>)> {
        if let Some(k) = self.ar.as_const(c) {
            return Ok((k == 1, None));
        }
        if st.spec > 0 {
            return Err(Stop::Merge);
        }
        let v = self.eval(st, c) == 1;
        let other = if v { self.ar.not(c) } else { c };
        match self.query(st, other) {
            Ok(Some(m)) => Ok((v, Some(m))),
            Ok(None) => {
                if self.prof {
                    let k = format!("implied {:?} b{}", self.backtrace(st).iter().take(3).collect::<Vec<_>>(), st.frames.last().unwrap().bb);
                    *self.profile.entry(k).or_default() += 1;
                }
                // implied: remember it (not part of pc)
                let (tt, ff) = (self.ar.tt, self.ar.ff);
                let nc = self.ar.not(c);
                st.known.insert(c, if v { tt } else { ff });
                st.known.insert(nc, if v { ff } else { tt });
                Ok((v, None))
            }
            Err(()) => {
                self.unknown_branches += 1;
                Ok((v, None)) // only the side with a witness is explored; reported as incomplete
            }
        }
    }
    pub fn fork(&mut self, st: &State) -> State {
        self.forks += 1;
        let mut n = st.clone();
        n.forks += 1;
        n
    }
    /// Fix a term to one concrete value; the other values become new states that re-execute the
    /// current instruction.
    pub fn concretize(&mut self, st: &mut State, t: T) -> R<u64> {
        if let Some(k) = self.ar.as_const(t) {
            return Ok(k as u64);
        }
        let t = self.subst(st, t);
        if let Some(k) = self.ar.as_const(t) {
            return Ok(k as u64);
        }
        if st.spec > 0 {
            return Err(Stop::Merge);
        }
        let v = self.eval(st, t);
        let k = self.ar.cst(self.ar.w(t), v);
        let c = self.ar.eq(t, k);
        let nc = self.ar.not(c);
        match self.query(st, nc) {
            Ok(Some(m)) => {
                if self.prof {
                    let k = format!("conc {:?} b{}:{}", self.backtrace(st).iter().take(3).collect::<Vec<_>>(), st.frames.last().unwrap().bb, st.frames.last().unwrap().ip);
                    *self.profile.entry(k).or_default() += 1;
                }
                let mut o = self.fork(st);
                o.model = m;
                self.add(&mut o, nc);
                self.work.push(o);
                self.add(st, c);
            }
            Ok(None) => {
                st.known.insert(t, k);
                let n = self.ar.n(c);
                if n.op == Op::Eq && self.ar.is_const(n.b) {
                    st.known.insert(n.a, n.b);
                }
                let s = self.ar.i(t).sup;
                st.known_sup = self.ar.sup_join(st.known_sup, s);
                self.kver += 1;
                st.kver = self.kver;
            }
            Err(()) => {
                self.unknown_branches += 1;
                self.add(st, c);
            }
        }
        Ok(v as u64)
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::T(t) => {
                if let Some(&(int, k, _, w)) = self.fx.get(t) {
                    let i = self.concretize(st, int)? as i64;
                    let f = i as f64 / (1u64 << k) as f64;
                    return Ok(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() });
                }
                self.concretize(st, *t)
            }
            Val::A(_) => eng!("aggregate scalar"),
        }
    }

    // ---- floating point values that are exact integers over a power of two --------------------
    /// The value as (signed 64-bit numerator, k, bound on the numerator): numerator / 2^k.
    pub fn fx_of(&mut self, v: &Val, w: u32) -> Option<(T, u32, u64)> {
        match v {
            Val::T(t) => self.fx.get(t).map(|x| (x.0, x.1, x.2)),
            Val::C(x) => {
                let f = if w == 32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x) };
                for k in 0..20u32 {
                    let g = f * (1u64 << k) as f64;
                    if g.fract() == 0.0 && g.abs() < 16777216.0 && !(f == 0.0 && f.is_sign_negative()) {
                        return Some((self.ar.cst(64, g as i64 as u64 as u128), k, g.abs() as u64));
                    }
                }
                None
            }
            _ => None,
        }
    }
    /// None when the value is not known to be represented exactly.
    pub fn fx_make(&mut self, int: T, k: u32, bound: u64, w: u32) -> Option<Val> {
        if bound >= if w == 32 { 1 << 24 } else { 1 << 53 } || k > 20 {
            return None;
        }
        if let Some(c) = self.ar.as_const(int) {
            let f = c as u64 as i64 as f64 / (1u64 << k) as f64;
            return Some(Val::C(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() }));
        }
        if let Some(&t) = self.fx_rev.get(&(int, k, w)) {
            return Some(Val::T(t));
        }
        let name = format!("fx{}", self.fx.len());
        let t = self.ar.var(w, name);
        self.ar.opaque.push(t);
        self.fx.insert(t, (int, k, bound, w));
        self.fx_rev.insert((int, k, w), t);
        Some(Val::T(t))
    }
    fn fx_align(&mut self, a: (T, u32, u64), b: (T, u32, u64)) -> Option<(T, T, u32, u64, u64)> {
        let k = a.1.max(b.1);
        let up = |m: &mut Mach, x: (T, u32, u64)| {
            let d = k - x.1;
            if x.2 >= 1 << 40 {
                return None;
            }
            let c = m.ar.cst(64, 1u128 << d);
            Some((m.ar.mul(x.0, c), x.2 << d))
        };
        let (x, y) = (up(self, a)?, up(self, b)?);
        Some((x.0, y.0, k, x.1, y.1))
    }
    fn fx_bin(&mut self, op: B, w: u32, a: &Val, b: &Val) -> Option<Val> {
        let (x, y) = (self.fx_of(a, w)?, self.fx_of(b, w)?);
        match op {
            B::FAdd | B::FSub => {
                let (p, q, k, bp, bq) = self.fx_align(x, y)?;
                let r = if op == B::FAdd { self.ar.add(p, q) } else { self.ar.sub(p, q) };
                self.fx_make(r, k, bp + bq, w)
            }
            B::FMul => {
                if x.2 >= 1 << 26 || y.2 >= 1 << 26 {
                    return None;
                }
                let r = self.ar.mul(x.0, y.0);
                self.fx_make(r, x.1 + y.1, x.2 * y.2, w)
            }
            B::FDiv => {
                // by a power of two only
                let c = self.ar.as_const(y.0)? as u64 as i64;
                if c <= 0 || !(c as u64).is_power_of_two() || y.1 != 0 {
                    return None;
                }
                self.fx_make(x.0, x.1 + c.trailing_zeros(), x.2, w)
            }
            _ => None,
        }
    }
    /// Rounded to an integer: 0 floor, 1 ceil, 2 toward zero.  The result is a 64-bit integer.
    pub fn fx_round(&mut self, v: &Val, w: u32, mode: u32) -> Option<(T, u64)> {
        let (x, k, b) = self.fx_of(v, w)?;
        if k == 0 {
            return Some((x, b));
        }
        let m = self.ar.cst(64, (1u128 << k) - 1);
        let up = self.ar.add(x, m);
        let y = match mode {
            0 => x,
            1 => up,
            _ => {
                let z = self.ar.cst(64, 0);
                let neg = self.ar.slt(x, z);
                self.ar.ite(neg, up, x)
            }
        };
        Some((self.ar.ashr_c(y, k), (b >> k) + 1))
    }
    pub fn fx_to_int(&mut self, v: &Val, w: u32, signed: bool, wt: u32) -> Option<Val> {
        if let Val::C(_) = v {
            return None;
        }
        let (x, b) = self.fx_round(v, w, 2)?;
        if b >= 1 << 62 || wt > 64 {
            return None;
        }
        let (lo, hi) = if signed { (-(1i128 << (wt - 1)), (1i128 << (wt - 1)) - 1) } else { (0, (1i128 << wt) - 1) };
        let mut r = x;
        if lo > -(b as i128) {
            let c = self.ar.cst(64, lo as i64 as u64 as u128);
            let l = self.ar.slt(r, c);
            r = self.ar.ite(l, c, r);
        }
        if hi < b as i128 {
            let c = self.ar.cst(64, hi as u128);
            let l = self.ar.slt(c, r);
            r = self.ar.ite(l, c, r);
        }
        let r = self.ar.extract(r, 0, wt);
        Some(self.norm(r))
    }
    fn fx_cmp(&mut self, p: &str, w: u32, a: &Val, b: &Val) -> Option<Val> {
        let (x, y) = (self.fx_of(a, w)?, self.fx_of(b, w)?);
        let (x, y, _, _, _) = self.fx_align(x, y)?;
        let r = match p {
            "oeq" | "ueq" => self.ar.eq(x, y),
            "one" | "une" => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            "olt" | "ult" => self.ar.slt(x, y),
            "ogt" | "ugt" => self.ar.slt(y, x),
            "ole" | "ule" => {
                let e = self.ar.slt(y, x);
                self.ar.not(e)
            }
            "oge" | "uge" => {
                let e = self.ar.slt(x, y);
                self.ar.not(e)
            }
            "ord" | "true" => return Some(Val::C(1)),
            "uno" | "false" => return Some(Val::C(0)),
            _ => return None,
        };
        Some(self.norm(r))
    }

    // ---- memory ----------------------------------------------------------------------------
    fn global_obj(&mut self, st: &mut State, s: u32) -> R<Rc<Obj>> {
        if let Some(o) = st.globals.get(&s) {
            return Ok(o.clone());
        }
        if let Some(o) = self.consts.get(&s) {
            return Ok(o.clone());
        }
        let (t, v, isc) = self.m.parse_global(&mut self.ar, s);
        let (size, _) = self.m.layout(t);
        let mut o = Obj::new(size, 0);
        if let Some(v) = v {
            self.put(&mut o, 0, t, &v)?;
        }
        o.ro = isc;
        let o = Rc::new(o);
        self.consts.insert(s, o.clone());
        Ok(o)
    }
    fn put(&mut self, o: &mut Obj, off: u64, t: TyId, v: &Val) -> R<()> {
        match v {
            Val::A(els) => {
                for (i, e) in els.iter().enumerate() {
                    let (fo, ft) = self.m.field_off(t, i);
                    self.put(o, off + fo, ft, e)?;
                }
            }
            Val::C(x) => {
                let n = self.m.layout(t).0;
                for i in 0..n.min(8) {
                    o.set_c(off + i, (*x >> (8 * i)) as u8);
                }
                for i in 8..n {
                    o.set_c(off + i, 0);
                }
            }
            Val::T(tm) => {
                let w = self.ar.w(*tm);
                let n = ((w + 7) / 8) as u64;
                let tm = if w % 8 != 0 { self.ar.zext(*tm, n as u32 * 8) } else { *tm };
                for i in 0..n {
                    let b = self.ar.extract(tm, i as u32 * 8, 8);
                    match self.ar.as_const(b) {
                        Some(k) => o.set_c(off + i, k as u8),
                        None => o.set_t(off + i, b),
                    }
                }
            }
        }
        Ok(())
    }
    pub fn obj(&mut self, st: &mut State, id: u64) -> R<Rc<Obj>> {
        if id >= FUNC_BASE {
            eng!("data access to code address")
        } else if id >= GLOB_BASE {
            let s = (id - GLOB_BASE) as u32;
            if s as usize >= self.m.syms.len() {
                return Err(Stop::Violation("memory".into(), "wild pointer".into()));
            }
            self.global_obj(st, s)
        } else if id >= STACK_BASE {
            match st.stack.get((id - STACK_BASE) as usize) {
                Some(o) => Ok(o.clone()),
                None => Err(Stop::Violation("memory".into(), "dangling stack pointer".into())),
            }
        } else {
            match st.heap.get(id as usize) {
                Some(o) if o.alive => Ok(o.clone()),
                Some(_) if id == 0 => Err(Stop::Violation("memory".into(), "null/dangling pointer access".into())),
                Some(_) => Err(Stop::Violation("memory".into(), "use after free".into())),
                None => Err(Stop::Violation("memory".into(), "wild pointer".into())),
            }
        }
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> R<&'a mut Obj> {
        let o = if id >= FUNC_BASE {
            eng!("data access to code address")
        } else if id >= GLOB_BASE {
            let s = (id - GLOB_BASE) as u32;
            if s as usize >= self.m.syms.len() {
                return Err(Stop::Violation("memory".into(), "wild pointer".into()));
            }
            if !st.globals.contains_key(&s) {
                let o = self.global_obj(st, s)?;
                if o.ro {
                    return Err(Stop::Violation("memory".into(), "write to constant".into()));
                }
                st.globals.insert(s, o);
            }
            st.globals.get_mut(&s).unwrap()
        } else if id >= STACK_BASE {
            match st.stack.get_mut((id - STACK_BASE) as usize) {
                Some(o) => o,
                None => return Err(Stop::Violation("memory".into(), "dangling stack pointer".into())),
            }
        } else {
            match st.heap.get_mut(id as usize) {
                Some(o) if o.alive => o,
                Some(_) => return Err(Stop::Violation("memory".into(), "write to freed or null memory".into())),
                None => return Err(Stop::Violation("memory".into(), "wild pointer".into())),
            }
        };
        Ok(Rc::make_mut(o))
    }
    /// Concrete address of an access of n bytes, bounds checked.
    fn addr(&mut self, st: &mut State, p: &Val, n: u64) -> R<(u64, u64)> {
        let a = self.conc(st, p)?;
        self.chk(st, a, n)
    }
    fn chk(&mut self, st: &mut State, a: u64, n: u64) -> R<(u64, u64)> {
        let (id, off) = (a >> 32, a & 0xffff_ffff);
        if n == 0 {
            return Ok((id, off));
        }
        let o = self.obj(st, id)?;
        if off + n > o.size {
            return Err(Stop::Violation("memory".into(), format!("out-of-bounds access: offset {} size {} of a {}-byte object", off, n, o.size)));
        }
        if o.ssz != NONE && self.ar.i(o.ssz).lo < off + n {
            let lim = self.ar.cst(64, (off + n) as u128);
            self.within(st, lim, o.ssz)?;
            if o.data.len() < (off + n) as usize {
                return Err(Stop::Bound("access to a huge object".into()));
            }
        }
        Ok((id, off))
    }
    /// An access up to `end` of an object of `size` bytes: a violation if it can be outside.
    pub fn within(&mut self, st: &mut State, end: T, size: T) -> R<()> {
        let c = self.ar.ult(size, end);
        let c = self.subst(st, c);
        let (bad, other) = self.decide(st, c)?;
        let v = Stop::Violation("memory".into(), "access outside an allocation of symbolic size".into());
        if bad {
            return Err(v);
        }
        if let Some(m) = other {
            st.model = m;
            self.add(st, c);
            return Err(v);
        }
        Ok(())
    }
    fn byte(&mut self, st: &State, o: &Obj, i: u64) -> T {
        let t = o.term(i);
        if t == NONE {
            self.ar.cst(8, o.data[i as usize] as u128)
        } else if let Some(&k) = st.known.get(&t) {
            k
        } else {
            t
        }
    }
    fn read_obj(&mut self, st: &State, o: &Obj, off: u64, n: u64, w: u32) -> Val {
        let conc = match &o.sym {
            None => true,
            Some(s) => s[off as usize..(off + n) as usize].iter().all(|&t| t == NONE),
        };
        if conc && n <= 8 {
            let mut x = 0u64;
            for i in 0..n {
                x |= (o.data[(off + i) as usize] as u64) << (8 * i);
            }
            return Val::C(x & mask64(w));
        }
        let mut r = self.byte(st, o, off + n - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte(st, o, off + i);
            r = self.ar.concat(r, b);
        }
        if w < n as u32 * 8 {
            r = self.ar.extract(r, 0, w);
        }
        if let Some(&k) = st.known.get(&r) {
            r = k;
        }
        self.norm(r)
    }
    pub fn load_at(&mut self, st: &mut State, id: u64, off: u64, t: TyId) -> R<Val> {
        match self.m.tys[t as usize].clone() {
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = self.m.field_off(t, i);
                    v.push(self.load_at(st, id, off + o, ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(n, e) => {
                let s = self.m.layout(e).0;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load_at(st, id, off + i * s, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, e) => {
                let w = self.m.bits(e);
                if w % 8 != 0 {
                    eng!("bit vector load")
                }
                let o = self.obj(st, id)?;
                let s = w as u64 / 8;
                let mut v = vec![];
                for i in 0..n as u64 {
                    v.push(self.read_obj(st, &o, off + i * s, s, w));
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = self.m.bits(t);
                let o = self.obj(st, id)?;
                Ok(self.read_obj(st, &o, off, ((w + 7) / 8) as u64, w))
            }
        }
    }
    pub fn load(&mut self, st: &mut State, p: &Val, t: TyId) -> R<Val> {
        let n = self.m.layout(t).0;
        let n = match self.m.tys[t as usize] {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => n,
        };
        match p {
            Val::C(a) => {
                let (id, off) = self.chk(st, *a, n)?;
                self.load_at(st, id, off, t)
            }
            Val::T(a) => {
                let a = self.subst(st, *a);
                if let Some(k) = self.ar.as_const(a) {
                    return self.load(st, &Val::C(k as u64), t);
                }
                if let Some(v) = self.load_sym(st, a, n, t)? {
                    return Ok(v);
                }
                let (id, off) = self.addr(st, &Val::T(a), n)?;
                self.load_at(st, id, off, t)
            }
            _ => eng!("load ptr"),
        }
    }
    /// Load through a symbolic address inside one object, as an if-then-else tree over the index.
    fn load_sym(&mut self, st: &mut State, a: T, n: u64, t: TyId) -> R<Option<Val>> {
        if !matches!(self.m.tys[t as usize], Ty::Int(_) | Ty::Ptr) {
            return Ok(None);
        }
        let i = *self.ar.i(a);
        let v = self.eval(st, a) as u64;
        let id = v >> 32;
        let base = id << 32;
        let o = self.obj(st, id)?;
        if o.size < n || o.ssz != NONE {
            return Ok(None);
        }
        let inb = i.lo >= base && i.hi <= base + o.size - n;
        let bt = self.ar.cst(64, base as u128);
        let off = self.ar.sub(a, bt);
        if !inb {
            let lim = self.ar.cst(64, (o.size - n) as u128);
            let oob = self.ar.ult(lim, off);
            if oob != self.ar.ff {
                if st.known.get(&oob) != Some(&self.ar.ff) {
                    if st.spec > 0 {
                        return Err(Stop::Merge);
                    }
                    match self.query(st, oob) {
                        Ok(None) => {
                            let ff = self.ar.ff;
                            st.known.insert(oob, ff);
                        }
                        _ => return Ok(None),
                    }
                }
            }
        }
        let w = self.m.bits(t);
        let oi = *self.ar.i(off);
        let lim = o.size - n;
        let lo = if inb { i.lo - base } else { oi.lo.min(lim) };
        let hi = if inb { i.hi - base } else { oi.hi.min(lim) };
        let tz = oi.kz.trailing_ones().min(32);
        let low_known = oi.kz | oi.ko;
        // allow a constant low part (e.g. idx*2 + 1)
        let tzk = low_known.trailing_ones().min(32).max(tz);
        let low = oi.ko & mask64(tzk);
        let nb = 64 - (hi >> tzk).leading_zeros();
        if nb > 13 {
            return Ok(None);
        }
        let nb = nb.max(1);
        let idx = self.ar.extract(off, tzk, nb);
        let (ilo, ihi) = (lo.saturating_sub(low) >> tzk, hi >> tzk);
        let r = self.tree(st, &o, idx, nb, 0, tzk, low, n, w, ilo, ihi, lim);
        Ok(Some(self.norm(r)))
    }
    fn tree(&mut self, st: &State, o: &Obj, idx: T, nb: u32, pre: u64, tz: u32, low: u64, n: u64, w: u32, ilo: u64, ihi: u64, lim: u64) -> T {
        if nb == 0 {
            let off = ((pre << tz) | low).min(lim);
            let v = self.read_obj(st, o, off, n, w);
            return self.tv(&v, w);
        }
        // range of indexes with this prefix
        let p0 = pre << nb;
        let mid = p0 | (1 << (nb - 1));
        let end = p0 | ((1u64 << nb) - 1);
        let bit = self.ar.extract(idx, nb - 1, 1);
        let can1 = ihi >= mid && bit != self.ar.ff;
        let can0 = ilo < mid && bit != self.ar.tt;
        let _ = end;
        if can1 && !can0 {
            return self.tree(st, o, idx, nb - 1, pre << 1 | 1, tz, low, n, w, ilo, ihi, lim);
        }
        if can0 && !can1 {
            return self.tree(st, o, idx, nb - 1, pre << 1, tz, low, n, w, ilo, ihi, lim);
        }
        let a = self.tree(st, o, idx, nb - 1, pre << 1 | 1, tz, low, n, w, ilo, ihi, lim);
        let b = self.tree(st, o, idx, nb - 1, pre << 1, tz, low, n, w, ilo, ihi, lim);
        self.ar.ite(bit, a, b)
    }
    pub fn store_at(&mut self, st: &mut State, id: u64, off: u64, t: TyId, v: &Val) -> R<()> {
        let ob = self.obj_mut(st, id)?;
        // move out to satisfy the borrow checker cheaply
        let mut o = std::mem::replace(ob, Obj { size: 0, ssz: NONE, data: vec![], sym: None, alive: true, ro: false });
        let r = self.put(&mut o, off, t, v);
        *self.obj_mut(st, id)? = o;
        r
    }
    pub fn store(&mut self, st: &mut State, p: &Val, t: TyId, v: &Val) -> R<()> {
        let n = match self.m.tys[t as usize] {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => self.m.layout(t).0,
        };
        if let (Val::T(a), Val::C(x), 0) = (p, v, st.spec) {
            if self.store_same(st, *a, n, *x)? {
                return Ok(());
            }
        }
        let (id, off) = self.addr(st, p, n)?;
        if n == 0 {
            return Ok(());
        }
        if let (Val::C(x), true) = (v, n <= 8) {
            let o = self.obj_mut(st, id)?;
            for i in 0..n {
                o.set_c(off + i, (*x >> (8 * i)) as u8);
            }
            return Ok(());
        }
        self.store_at(st, id, off, t, v)
    }
    /// A store at a symbolic address inside one object of symbolic size, all of whose bytes have the
    /// value already.
    fn store_same(&mut self, st: &mut State, a: T, n: u64, x: u64) -> R<bool> {
        let a = self.subst(st, a);
        if self.ar.as_const(a).is_some() || n > 8 || n == 0 {
            return Ok(false);
        }
        let id = self.eval(st, a) as u64 >> 32;
        let o = self.obj(st, id)?;
        let b = x as u8;
        if o.ssz == NONE || o.ro || o.sym.is_some() || (0..n).any(|i| (x >> (8 * i)) as u8 != b) || o.data.iter().any(|&y| y != b) {
            return Ok(false);
        }
        let base = self.ar.cst(64, (id << 32) as u128);
        let off = self.ar.sub(a, base);
        let k = self.ar.cst(64, n as u128);
        let end = self.ar.add(off, k);
        let lim = self.ar.cst(64, 1 << 41);
        let c1 = self.ar.ult(off, lim);
        let nc1 = self.ar.not(c1);
        let c2 = self.ar.ult(o.ssz, end);
        let bad = self.ar.or(nc1, c2);
        let bad = self.subst(st, bad);
        let (v, other) = self.decide(st, bad)?;
        Ok(!v && other.is_none())
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, fill: u8) -> R<u64> {
        if st.spec > 0 {
            return Err(Stop::Merge);
        }
        if size > self.cfg.max_alloc {
            return Err(Stop::Bound(format!("allocation of more than {} bytes", self.cfg.max_alloc)));
        }
        st.heap.push(Rc::new(Obj::new(size, fill)));
        Ok(((st.heap.len() - 1) as u64) << 32)
    }
    /// Allocation of a size that need not be constant.  Small sizes become one path each; for the
    /// others there is one object with a symbolic size.
    pub fn alloc_val(&mut self, st: &mut State, v: &Val, fill: u8) -> R<u64> {
        let t = match v {
            Val::T(t) => self.subst(st, *t),
            _ => NONE,
        };
        if t == NONE || self.ar.as_const(t).is_some() || self.ar.w(t) != 64 || self.ar.i(t).hi <= 128 {
            let n = self.conc(st, v)?;
            return self.alloc(st, n, fill);
        }
        if st.spec > 0 {
            return Err(Stop::Merge);
        }
        let k = self.ar.cst(64, 33);
        let small = self.ar.ult(t, k);
        if self.split(st, small)? {
            let n = self.conc(st, v)?;
            return self.alloc(st, n, fill);
        }
        for cap in [256u64, 4096, 1 << 17, 1 << 20, 1 << 23, 1 << 26] {
            if cap > self.cfg.max_alloc {
                break;
            }
            let k = self.ar.cst(64, cap as u128);
            let over = self.ar.ult(k, t);
            let (o, other) = self.decide(st, over)?;
            if !o && other.is_none() {
                let a = self.alloc(st, cap, fill)?;
                let id = (a >> 32) as usize;
                if self.ar.as_const(t).is_none() {
                    Rc::make_mut(&mut st.heap[id]).ssz = t;
                }
                return Ok(a);
            }
        }
        // larger than what is modelled byte by byte: only its bounds and its life time are
        let k = self.ar.cst(64, 1 << 40);
        let over = self.ar.ult(k, t);
        if self.split(st, over)? {
            return Err(Stop::Bound("allocation of more than 2^40 bytes".into()));
        }
        st.heap.push(Rc::new(Obj { size: 1 << 40, ssz: t, data: vec![], sym: None, alive: true, ro: false }));
        let a = ((st.heap.len() - 1) as u64) << 32;
        // the addresses behind it
        for _ in 0..256 {
            let dead = st.heap[0].clone();
            st.heap.push(dead);
        }
        Ok(a)
    }
    /// Fixes a condition to one value; the other one becomes a state that executes the instruction again.
    fn split(&mut self, st: &mut State, c: T) -> R<bool> {
        let c = self.subst(st, c);
        let (v, other) = self.decide(st, c)?;
        if let Some(m) = other {
            let mut o = self.fork(st);
            o.model = m;
            let nc = self.ar.not(c);
            let (oc, cc) = if v { (nc, c) } else { (c, nc) };
            self.add(&mut o, oc);
            self.work.push(o);
            self.add(st, cc);
        }
        Ok(v)
    }
    pub fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if st.spec > 0 {
            return Err(Stop::Merge);
        }
        if a == 0 {
            return Ok(());
        }
        let (id, off) = (a >> 32, a & 0xffffffff);
        if off != 0 || id as usize >= st.heap.len() || !st.heap[id as usize].alive {
            return Err(Stop::Violation("memory".into(), "invalid or double free".into()));
        }
        st.heap[id as usize] = Rc::new(Obj { size: 0, ssz: NONE, data: vec![], sym: None, alive: false, ro: true });
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.chk(st, s, n)?;
        let (di, d_o) = self.chk(st, d, n)?;
        let src = self.obj(st, si)?;
        let dst = self.obj_mut(st, di)?;
        dst.data[d_o as usize..(d_o + n) as usize].copy_from_slice(&src.data[so as usize..(so + n) as usize]);
        let has = src.sym.as_ref().map_or(false, |s| s[so as usize..(so + n) as usize].iter().any(|&t| t != NONE));
        if has {
            if dst.sym.is_none() {
                dst.sym = Some(vec![NONE; dst.size as usize]);
            }
            dst.sym.as_mut().unwrap()[d_o as usize..(d_o + n) as usize].copy_from_slice(&src.sym.as_ref().unwrap()[so as usize..(so + n) as usize]);
        } else if let Some(ds) = &mut dst.sym {
            ds[d_o as usize..(d_o + n) as usize].fill(NONE);
        }
        Ok(())
    }

    // ---- scalar operations -------------------------------------------------------------------
    fn fbin(&mut self, op: B, w: u32, a: u64, b: u64) -> u64 {
        if w == 32 {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            let r = match op {
                B::FAdd => x + y,
                B::FSub => x - y,
                B::FMul => x * y,
                B::FDiv => x / y,
                _ => x % y,
            };
            r.to_bits() as u64
        } else {
            let (x, y) = (f64::from_bits(a), f64::from_bits(b));
            let r = match op {
                B::FAdd => x + y,
                B::FSub => x - y,
                B::FMul => x * y,
                B::FDiv => x / y,
                _ => x % y,
            };
            r.to_bits()
        }
    }
    pub fn bin(&mut self, st: &mut State, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if matches!(op, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem) {
            if matches!(a, Val::T(_)) || matches!(b, Val::T(_)) {
                if let Some(r) = self.fx_bin(op, w, a, b) {
                    return Ok(r);
                }
            }
            let x = self.conc(st, a)?;
            let y = self.conc(st, b)?;
            return Ok(Val::C(self.fbin(op, w, x, y)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask64(w);
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::UDiv | B::URem | B::SDiv | B::SRem if y == 0 => return Err(Stop::Violation("panic".into(), "division by zero".into())),
                B::UDiv => x / y,
                B::URem => x % y,
                B::SDiv => sx64(x, w).wrapping_div(sx64(y, w)) as u64,
                B::SRem => sx64(x, w).wrapping_rem(sx64(y, w)) as u64,
                B::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sx64(x, w) >> y.min(w as u64 - 1)) as u64,
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                _ => unreachable!(),
            };
            return Ok(Val::C(r & m));
        }
        let x = self.tv(a, w);
        let mut y = self.tv(b, w);
        if matches!(op, B::Shl | B::LShr | B::AShr) && !self.ar.is_const(y) {
            // shift amounts are made concrete: they steer all later bit positions
            if !(self.ar.is_const(x) && w <= 16) {
                let k = self.concretize(st, y)?;
                y = self.ar.cst(w, k as u128);
            }
        }
        if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) && !self.ar.is_const(y) {
            let z = self.ar.cst(w, 0);
            let e = self.ar.eq(y, z);
            if e != self.ar.ff {
                if st.spec > 0 {
                    return Err(Stop::Merge);
                }
                let (v, o) = self.decide(st, e)?;
                if v || o.is_some() {
                    if v {
                        return Err(Stop::Violation("panic".into(), "division by zero".into()));
                    }
                    let ne = self.ar.not(e);
                    self.add(st, ne);
                }
            }
        }
        let ar = &mut self.ar;
        let r = match op {
            B::Add => ar.add(x, y),
            B::Sub => ar.sub(x, y),
            B::Mul => ar.mul(x, y),
            B::UDiv => ar.udiv(x, y),
            B::URem => ar.urem(x, y),
            B::SDiv => ar.sdiv(x, y),
            B::SRem => ar.srem(x, y),
            B::Shl => ar.shl(x, y),
            B::LShr => ar.lshr(x, y),
            B::AShr => ar.ashr(x, y),
            B::And => ar.and(x, y),
            B::Or => ar.or(x, y),
            B::Xor => ar.xor(x, y),
            _ => unreachable!(),
        };
        Ok(self.norm(r))
    }
    pub fn icmp(&mut self, p: P, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sx64(x, w), sx64(y, w));
            let r = match p {
                P::Eq => x == y,
                P::Ne => x != y,
                P::Ugt => x > y,
                P::Uge => x >= y,
                P::Ult => x < y,
                P::Ule => x <= y,
                P::Sgt => sx > sy,
                P::Sge => sx >= sy,
                P::Slt => sx < sy,
                P::Sle => sx <= sy,
            };
            return Val::C(r as u64);
        }
        let x = self.tv(a, w);
        let y = self.tv(b, w);
        let ar = &mut self.ar;
        let r = match p {
            P::Eq => ar.eq(x, y),
            P::Ne => ar.ne(x, y),
            P::Ugt => ar.ult(y, x),
            P::Uge => ar.ule(y, x),
            P::Ult => ar.ult(x, y),
            P::Ule => ar.ule(x, y),
            P::Sgt => ar.slt(y, x),
            P::Sge => ar.sle(y, x),
            P::Slt => ar.slt(x, y),
            P::Sle => ar.sle(x, y),
        };
        self.norm(r)
    }
    pub fn ite_val(&mut self, st: &mut State, c: T, ty: TyId, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    let ft = match &self.m.tys[ty as usize] {
                        Ty::Struct(f, _) => f[i],
                        Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
                        _ => eng!("ite aggregate"),
                    };
                    v.push(self.ite_val(st, c, ft, &x[i], &y[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            (Val::C(x), Val::C(y)) if x == y => Ok(Val::C(*x)),
            _ => {
                let w = self.m.bits(ty);
                let isf = |m: &Mach, v: &Val| matches!(v, Val::T(t) if m.fx.contains_key(t));
                if isf(self, a) || isf(self, b) {
                    let r = match (self.fx_of(a, w), self.fx_of(b, w)) {
                        (Some(p), Some(q)) => self.fx_align(p, q).and_then(|(p, q, k, bp, bq)| {
                            let r = self.ar.ite(c, p, q);
                            self.fx_make(r, k, bp.max(bq), w)
                        }),
                        _ => None,
                    };
                    return match r {
                        Some(r) => Ok(r),
                        None => eng!("floating point value outside the exact range in a merge"),
                    };
                }
                let x = self.tv(a, w);
                let y = self.tv(b, w);
                let r = self.ar.ite(c, x, y);
                Ok(self.norm(r))
            }
        }
    }
    fn cast(&mut self, st: &mut State, k: Cast, from: TyId, to: TyId, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (self.m.tys[from as usize].clone(), self.m.tys[to as usize].clone()) {
            if k == Cast::Bitcast {
                return self.bitcast(from, to, v);
            }
            let _ = n;
            if let Val::A(x) = v {
                let mut r = vec![];
                for e in x.iter() {
                    r.push(self.cast(st, k, fe, te, e)?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
            eng!("vector cast");
        }
        if k == Cast::Bitcast {
            if matches!(self.m.tys[from as usize], Ty::Vec(..)) || matches!(self.m.tys[to as usize], Ty::Vec(..)) {
                return self.bitcast(from, to, v);
            }
            return Ok(v.clone());
        }
        let (wf, wt) = (self.m.bits(from), self.m.bits(to));
        match k {
            Cast::UiToFp | Cast::SiToFp | Cast::FpToUi | Cast::FpToSi | Cast::FpExt | Cast::FpTrunc => {
                if let Val::T(t) = v {
                    let r = match k {
                        Cast::UiToFp | Cast::SiToFp => {
                            let (b, n) = if k == Cast::UiToFp {
                                let h = self.ar.i(*t).hi;
                                (h, self.ar.zext(*t, 64))
                            } else {
                                (1u64 << (wf - 1).min(62), self.ar.sext(*t, 64))
                            };
                            self.fx_make(n, 0, b, wt)
                        }
                        Cast::FpToUi | Cast::FpToSi => self.fx_to_int(v, wf, k == Cast::FpToSi, wt),
                        _ => {
                            let x = self.fx_of(v, wf);
                            x.and_then(|(n, k, b)| self.fx_make(n, k, b, wt))
                        }
                    };
                    if let Some(r) = r {
                        return Ok(r);
                    }
                }
                let x = self.conc(st, v)?;
                let r = match k {
                    Cast::UiToFp => {
                        if wt == 32 {
                            (x as f32).to_bits() as u64
                        } else {
                            (x as f64).to_bits()
                        }
                    }
                    Cast::SiToFp => {
                        if wt == 32 {
                            (sx64(x, wf) as f32).to_bits() as u64
                        } else {
                            (sx64(x, wf) as f64).to_bits()
                        }
                    }
                    Cast::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    Cast::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    _ => {
                        let f = if wf == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                        if k == Cast::FpToUi {
                            f as u64
                        } else {
                            f as i64 as u64
                        }
                    }
                };
                return Ok(Val::C(r & mask64(wt)));
            }
            _ => {}
        }
        if let Val::C(x) = v {
            if wt <= 64 {
                let r = match k {
                    Cast::SExt => sx64(*x, wf) as u64,
                    _ => *x,
                };
                return Ok(Val::C(r & mask64(wt)));
            }
        }
        let t = self.tv(v, wf);
        let r = if wt == wf {
            t
        } else if wt < wf {
            self.ar.extract(t, 0, wt)
        } else if k == Cast::SExt {
            self.ar.sext(t, wt)
        } else {
            self.ar.zext(t, wt)
        };
        Ok(self.norm(r))
    }
    fn bitcast(&mut self, from: TyId, to: TyId, v: &Val) -> R<Val> {
        // flatten into pieces (low first), then regroup
        let (fe, els): (u32, Vec<Val>) = match (&self.m.tys[from as usize], v) {
            (Ty::Vec(_, e), Val::A(x)) => (self.m.bits(*e), x.as_ref().clone()),
            _ => (self.m.bits(from), vec![v.clone()]),
        };
        let (te, n) = match self.m.tys[to as usize] {
            Ty::Vec(n, e) => (self.m.bits(e), n as usize),
            _ => (self.m.bits(to), 1),
        };
        let mut out = vec![];
        for i in 0..n {
            // bits [i*te, (i+1)*te)
            let mut lo = i as u32 * te;
            let end = lo + te;
            let mut acc = NONE;
            while lo < end {
                let k = lo / fe;
                let o = lo - k * fe;
                let take = (fe - o).min(end - lo);
                let x = self.tv(&els[k as usize], fe);
                let p = self.ar.extract(x, o, take);
                acc = if acc == NONE { p } else { self.ar.concat(p, acc) };
                lo += take;
            }
            out.push(self.norm(acc));
        }
        if matches!(self.m.tys[to as usize], Ty::Vec(..)) {
            Ok(Val::A(Rc::new(out)))
        } else {
            Ok(out.pop().unwrap())
        }
    }

    // ---- control -------------------------------------------------------------------------------
    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let depth = st.frames.len();
        let fr = st.frames.last_mut().unwrap();
        fr.prev = fr.bb;
        let hit = matches!(st.spec_stop, Some((d, j)) if d == depth && j == to);
        if !hit {
            fr.bb = to;
            fr.ip = 0;
        }
        let f = fr.func.clone();
        let b = &f.blocks[to as usize];
        let mut vals = Vec::with_capacity(b.phis.len());
        if !b.phis.is_empty() {
            let prev = fr.prev;
            for p in &b.phis {
                let o = match p.inc.iter().find(|x| x.0 == prev) {
                    Some(x) => x.1,
                    None => eng!("phi without edge"),
                };
                vals.push(self.get(st, o));
            }
        }
        if hit {
            st.spec_hit = true;
            st.spec_phis = vals;
            return Ok(());
        }
        for (p, v) in b.phis.iter().zip(vals) {
            self.set(st, p.dst, v);
        }
        Ok(())
    }
    fn simple_region(&mut self, f: &Rc<Func>, bb: u32, j: u32) -> bool {
        if let Some(&r) = self.region.get(&(f.sym, bb)) {
            return r;
        }
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut order: Vec<u32> = succs(&f.blocks[bb as usize]);
        let mut ok = true;
        let mut cnt = 0;
        while let Some(x) = order.pop() {
            if x == j || !seen.insert(x) {
                continue;
            }
            if x == bb && self.cfg.loop_merge == 0 || seen.len() > 64 {
                ok = false;
                break;
            }
            let b = &f.blocks[x as usize];
            cnt += b.insts.len() + b.phis.len();
            for i in &b.insts {
                match i {
                    I::Call { callee: Callee::Sym(s), .. } => {
                        let n = self.m.syms[*s as usize].name.clone();
                        if !(n.starts_with("llvm.") && !n.contains("trap")) {
                            match self.handler(*s) {
                                Ok(H::Func(_)) => cnt += 20,
                                _ => ok = false,
                            }
                        }
                    }
                    I::Call { .. } | I::Alloca { .. } | I::Unreachable | I::Ret(..) | I::Unsupported(_) | I::Rmw { .. } | I::CmpXchg { .. } => ok = false,
                    _ => {}
                }
            }
            if cnt > self.cfg.merge_limit || !ok {
                ok = false;
                break;
            }
            order.extend(succs(b));
        }
        // acyclic?
        if ok {
            let mut state: FxMap<u32, u8> = Default::default();
            fn dfs(f: &Func, x: u32, j: u32, s: &mut FxMap<u32, u8>) -> bool {
                if x == j {
                    return true;
                }
                match s.get(&x) {
                    Some(1) => return false,
                    Some(2) => return true,
                    _ => {}
                }
                s.insert(x, 1);
                for y in succs(&f.blocks[x as usize]) {
                    if !dfs(f, y, j, s) {
                        return false;
                    }
                }
                s.insert(x, 2);
                true
            }
            for y in succs(&f.blocks[bb as usize]) {
                if !dfs(f, y, j, &mut state) && (cnt > 150 || self.cfg.loop_merge == 0) {
                    ok = false;
                }
            }
        }
        if ok && seen.contains(&bb) {
            // a loop around the branch: its registers may be used after the join without a phi
            let mut defs: FxMap<u32, Option<TyId>> = Default::default();
            for &x in &seen {
                for p in &f.blocks[x as usize].phis {
                    defs.insert(p.dst, Some(p.ty));
                }
                for i in &f.blocks[x as usize].insts {
                    if let Some((d, t)) = self.def_ty(i) {
                        defs.insert(d, t);
                    }
                }
            }
            let mut lo: BTreeSet<u32> = BTreeSet::new();
            for (x, b) in f.blocks.iter().enumerate() {
                if seen.contains(&(x as u32)) {
                    continue;
                }
                for p in &b.phis {
                    for (from, o) in &p.inc {
                        if let (false, Opr::R(r)) = (seen.contains(from), *o) {
                            lo.insert(r);
                        }
                    }
                }
                for i in &b.insts {
                    uses(i, &mut |o| {
                        if let Opr::R(r) = o {
                            lo.insert(r);
                        }
                    });
                }
            }
            let mut v = vec![];
            for r in lo {
                match defs.get(&r) {
                    Some(Some(t)) => v.push((r, *t)),
                    Some(None) => ok = false,
                    None => {}
                }
            }
            self.liveout.insert((f.sym, bb), Rc::new(v));
        }
        self.region.insert((f.sym, bb), ok);
        ok
    }
    fn def_ty(&mut self, i: &I) -> Option<(u32, Option<TyId>)> {
        Some(match i {
            I::Bin { ty, dst, .. } | I::Load { dst, ty, .. } | I::Select { dst, ty, .. } | I::FNeg { dst, ty, .. } => (*dst, Some(*ty)),
            I::InsertV { dst, ty, .. } | I::InsertE { dst, ty, .. } => (*dst, Some(*ty)),
            I::Call { dst, ret, .. } => (*dst, Some(*ret)),
            I::ICmp { dst, ty, .. } => {
                let vec = matches!(self.m.tys[*ty as usize], Ty::Vec(..));
                (*dst, if vec { None } else { Some(self.m.ty(Ty::Int(1))) })
            }
            I::Gep { dst, .. } => (*dst, Some(self.m.ty(Ty::Int(64)))),
            I::Cast { dst, to, .. } => (*dst, Some(*to)),
            I::FCmp { dst, .. }
            | I::Alloca { dst, .. }
            | I::ExtractV { dst, .. }
            | I::ExtractE { dst, .. }
            | I::Shuffle { dst, .. }
            | I::Rmw { dst, .. }
            | I::CmpXchg { dst, .. }
            | I::Copy { dst, .. } => (*dst, None),
            _ => return None,
        })
    }
    fn spec_side(&mut self, st: &State, to: u32, j: u32) -> Option<State> {
        let mut a = st.clone();
        a.spec += 1;
        a.spec_stop = Some((a.frames.len(), j));
        a.spec_hit = false;
        if self.goto(&mut a, to).is_err() {
            return None;
        }
        let mut n = 0;
        while !a.spec_hit {
            n += 1;
            if n > 2000 {
                return None;
            }
            if self.step(&mut a).is_err() {
                return None;
            }
        }
        Some(a)
    }
    /// If-conversion of a small region: run both sides, join with if-then-else.
    fn try_merge(&mut self, st: &mut State, c: T, t: u32, f: u32) -> R<bool> {
        if !self.cfg.merge || st.spec > self.cfg.loop_merge + 4 {
            return Ok(false);
        }
        let fr = st.frames.last().unwrap();
        let site = (fr.func.sym, fr.bb);
        let fr_bb = fr.bb;
        if let Some(&(s, e)) = self.merge_stats.get(&site) {
            if e > 8 && e > 4 * s {
                return Ok(false);
            }
        }
        let func = fr.func.clone();
        let j = func.ipdom[fr.bb as usize];
        if j == u32::MAX || !self.simple_region(&func, fr.bb, j) {
            return Ok(false);
        }
        let a = match self.spec_side(st, t, j) {
            Some(a) => a,
            None => {
                self.merge_fail += 1;
                if st.spec == 0 {
                    self.merge_stats.entry(site).or_insert((0, 0)).1 += 1;
                }
                return Ok(false);
            }
        };
        let b = match self.spec_side(st, f, j) {
            Some(b) => b,
            None => {
                self.merge_fail += 1;
                if st.spec == 0 {
                    self.merge_stats.entry(site).or_insert((0, 0)).1 += 1;
                }
                return Ok(false);
            }
        };
        // phis
        let jb = &func.blocks[j as usize];
        let mut vals = vec![];
        if let Some(lo) = self.liveout.get(&(func.sym, fr_bb)).cloned() {
            let (fa, fb) = (a.frames.len() - 1, b.frames.len() - 1);
            for &(r, ty) in lo.iter() {
                let (x, y) = (a.frames[fa].regs[r as usize].clone(), b.frames[fb].regs[r as usize].clone());
                let v = self.ite_val(st, c, ty, &x, &y)?;
                self.set(st, r, v);
            }
        }
        let outer = matches!(st.spec_stop, Some((d, jj)) if d == st.frames.len() && jj == j);
        for (k, p) in jb.phis.iter().enumerate() {
            vals.push(self.ite_val(st, c, p.ty, &a.spec_phis[k], &b.spec_phis[k])?);
        }
        // memory
        for kind in 0..2 {
            let (ha, hb) = if kind == 0 { (&a.heap, &b.heap) } else { (&a.stack, &b.stack) };
            if ha.len() != hb.len() {
                return Ok(false);
            }
            for k in 0..ha.len() {
                if Rc::ptr_eq(&ha[k], &hb[k]) {
                    continue;
                }
                let m = self.merge_obj(c, &ha[k], &hb[k]);
                if kind == 0 {
                    st.heap[k] = Rc::new(m);
                } else {
                    st.stack[k] = Rc::new(m);
                }
            }
        }
        let keys: BTreeSet<u32> = a.globals.keys().chain(b.globals.keys()).copied().collect();
        for g in keys {
            let mut base = st.clone_globals_only();
            let oa = match a.globals.get(&g) {
                Some(o) => o.clone(),
                None => self.global_obj(&mut base, g)?,
            };
            let ob = match b.globals.get(&g) {
                Some(o) => o.clone(),
                None => self.global_obj(&mut base, g)?,
            };
            if !Rc::ptr_eq(&oa, &ob) {
                let m = self.merge_obj(c, &oa, &ob);
                st.globals.insert(g, Rc::new(m));
            } else {
                st.globals.insert(g, oa);
            }
        }
        self.merges += 1;
        self.merge_stats.entry(site).or_insert((0, 0)).0 += 1;
        if outer {
            st.spec_phis = vals;
            st.spec_hit = true;
            return Ok(true);
        }
        let fr = st.frames.last_mut().unwrap();
        fr.bb = j;
        fr.ip = 0;
        for (p, v) in jb.phis.iter().zip(vals) {
            self.set(st, p.dst, v);
        }
        Ok(true)
    }
    fn merge_obj(&mut self, c: T, a: &Obj, b: &Obj) -> Obj {
        let mut r = a.clone();
        for i in 0..a.data.len() as u64 {
            let (x, y) = (a.term(i), b.term(i));
            if x == NONE && y == NONE && a.data[i as usize] == b.data[i as usize] {
                continue;
            }
            if x != NONE && x == y {
                continue;
            }
            let x = if x == NONE { self.ar.cst(8, a.data[i as usize] as u128) } else { x };
            let y = if y == NONE { self.ar.cst(8, b.data[i as usize] as u128) } else { y };
            let t = self.ar.ite(c, x, y);
            match self.ar.as_const(t) {
                Some(k) => r.set_c(i, k as u8),
                None => r.set_t(i, t),
            }
        }
        r
    }

    fn branch(&mut self, st: &mut State, c: T, t: u32, f: u32) -> R<()> {
        let c = self.subst(st, c);
        if let Some(k) = self.ar.as_const(c) {
            return self.goto(st, if k == 1 { t } else { f });
        }
        if self.try_merge(st, c, t, f)? {
            return Ok(());
        }
        let (v, other) = self.decide(st, c)?;
        if self.cfg.verbose && st.spec == 0 {
            let fr = st.frames.last().unwrap();
            let j = fr.func.ipdom[fr.bb as usize];
            eprintln!(
                "branch {} bb {} ipdom {} -> {} / {} fork {}",
                self.m.syms[fr.func.sym as usize].short,
                fr.bb,
                j,
                t,
                f,
                other.is_some()
            );
        }
        if let Some(m) = other {
            if self.prof {
                let k = format!("br {:?} b{}", self.backtrace(st).iter().take(3).collect::<Vec<_>>(), st.frames.last().unwrap().bb);
                *self.profile.entry(k).or_default() += 1;
            }
            let mut o = self.fork(st);
            o.model = m;
            let oc = if v { self.ar.not(c) } else { c };
            self.add(&mut o, oc);
            self.goto(&mut o, if v { f } else { t })?;
            self.work.push(o);
            let cc = if v { c } else { self.ar.not(c) };
            self.add(st, cc);
        }
        self.goto(st, if v { t } else { f })
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().map(|f| self.m.syms[f.func.sym as usize].short.clone()).collect()
    }

    pub fn ret(&mut self, st: &mut State, v: Val) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stack_base);
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        self.set(st, fr.ret_dst, v);
        match fr.normal {
            Some(n) => self.goto(st, n),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn handler(&mut self, s: u32) -> R<H> {
        if let Some(h) = &self.handlers[s as usize] {
            return Ok(h.clone());
        }
        let name = self.m.syms[s as usize].name.clone();
        let short = self.m.syms[s as usize].short.clone();
        let h = if let Some(k) = crate::intrin::classify(&name, &short) {
            if k == "panic" {
                H::Panic
            } else {
                H::Intr(Rc::new(k))
            }
        } else if let Some(f) = self.m.func(&mut self.ar, s) {
            H::Func(f)
        } else {
            H::Intr(Rc::new(name))
        };
        self.handlers[s as usize] = Some(h.clone());
        Ok(h)
    }

    pub fn call_sym(&mut self, st: &mut State, s: u32, args: Vec<Val>, dst: u32, normal: Option<u32>) -> R<()> {
        match self.handler(s)? {
            H::Func(f) => {
                if st.spec > 0 {
                    return Err(Stop::Merge);
                }
                if st.frames.len() > 400 {
                    return Err(Stop::Bound("call depth".into()));
                }
                self.push_frame(st, f, args, dst, normal);
                Ok(())
            }
            _ => eng!("call_sym on intrinsic"),
        }
    }

    /// Execute one instruction.
    pub fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let func: *const Func = Rc::as_ptr(&fr.func);
        // the frame keeps the function alive for the duration of the step
        let func: &Func = unsafe { &*func };
        let _keep = fr.func.clone();
        let inst = &func.blocks[fr.bb as usize].insts[fr.ip];
        st.steps += 1;
        self.steps += 1;
        if self.cfg.trace {
            eprintln!("{:indent$}{} b{}:{} {:?}", "", self.m.syms[func.sym as usize].short, fr.bb, fr.ip, inst, indent = st.frames.len());
        }
        match inst {
            I::Bin { op, ty, dst, a, b } => {
                let x = self.get(st, *a);
                let y = self.get(st, *b);
                let r = if let (Val::A(p), Val::A(q)) = (&x, &y) {
                    let e = match self.m.tys[*ty as usize] {
                        Ty::Vec(_, e) => e,
                        _ => eng!("bin agg"),
                    };
                    let w = self.m.bits(e);
                    let mut v = Vec::with_capacity(p.len());
                    for i in 0..p.len() {
                        v.push(self.bin(st, *op, w, &p[i], &q[i])?);
                    }
                    Val::A(Rc::new(v))
                } else {
                    let w = self.m.bits(*ty);
                    self.bin(st, *op, w, &x, &y)?
                };
                self.set(st, *dst, r);
            }
            I::ICmp { p, ty, dst, a, b } => {
                let x = self.get(st, *a);
                let y = self.get(st, *b);
                let r = if let (Val::A(u), Val::A(q)) = (&x, &y) {
                    let e = match self.m.tys[*ty as usize] {
                        Ty::Vec(_, e) => e,
                        _ => eng!("icmp agg"),
                    };
                    let w = self.m.bits(e);
                    let v = (0..u.len()).map(|i| self.icmp(*p, w, &u[i], &q[i])).collect();
                    Val::A(Rc::new(v))
                } else {
                    let w = self.m.bits(*ty);
                    self.icmp(*p, w, &x, &y)
                };
                self.set(st, *dst, r);
            }
            I::FCmp { p, ty, dst, a, b } => {
                let x = self.get(st, *a);
                let y = self.get(st, *b);
                let w = self.m.bits(*ty);
                if matches!(x, Val::T(_)) || matches!(y, Val::T(_)) {
                    if let Some(r) = self.fx_cmp(p.as_str(), w, &x, &y) {
                        self.set(st, *dst, r);
                        return Ok(());
                    }
                }
                let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                let (x, y) = if w == 32 { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) } else { (f64::from_bits(x), f64::from_bits(y)) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => x != y && !un,
                    "ord" => !un,
                    "ueq" => x == y || un,
                    "ugt" => x > y || un,
                    "uge" => x >= y || un,
                    "ult" => x < y || un,
                    "ule" => x <= y || un,
                    "une" => x != y || un,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *dst, Val::C(r as u64));
            }
            I::FNeg { ty, dst, a } => {
                let x = self.get(st, *a);
                let x = self.conc(st, &x)?;
                let w = self.m.bits(*ty);
                self.set(st, *dst, Val::C(x ^ (1 << (w - 1))));
            }
            I::Load { dst, ty, ptr } => {
                let p = self.get(st, *ptr);
                let v = self.load(st, &p, *ty)?;
                self.set(st, *dst, v);
            }
            I::Store { ty, val, ptr } => {
                let p = self.get(st, *ptr);
                let v = self.get(st, *val);
                self.store(st, &p, *ty, &v)?;
            }
            I::Alloca { dst, size, n } => {
                let n = self.get(st, *n);
                let n = self.conc(st, &n)?;
                st.stack.push(Rc::new(Obj::new(size * n, 0xAB)));
                let a = (STACK_BASE + st.stack.len() as u64 - 1) << 32;
                self.set(st, *dst, Val::C(a));
            }
            I::Gep { dst, base, off, idx } => {
                let mut v = self.get(st, *base);
                let mut add = *off as u64;
                let mut symt: Vec<T> = vec![];
                for (o, w, s) in idx {
                    match self.get(st, *o) {
                        Val::C(x) => add = add.wrapping_add((sx64(x, *w).wrapping_mul(*s)) as u64),
                        Val::T(t) => {
                            let t = if *w < 64 { self.ar.sext(t, 64) } else { t };
                            let k = self.ar.cst(64, *s as u64 as u128);
                            symt.push(self.ar.mul(t, k));
                        }
                        _ => eng!("gep"),
                    }
                }
                if add != 0 {
                    v = match v {
                        Val::C(x) => Val::C(x.wrapping_add(add)),
                        Val::T(t) => {
                            let k = self.ar.cst(64, add as u128);
                            let r = self.ar.add(t, k);
                            self.norm(r)
                        }
                        _ => eng!("gep base"),
                    };
                }
                for t in symt {
                    let b = self.tv(&v, 64);
                    let r = self.ar.add(b, t);
                    v = self.norm(r);
                }
                self.set(st, *dst, v);
            }
            I::Cast { k, dst, from, to, a } => {
                let v = self.get(st, *a);
                let r = self.cast(st, *k, *from, *to, &v)?;
                self.set(st, *dst, r);
            }
            I::Select { dst, c, ty, cty, a, b } => {
                let cv = self.get(st, *c);
                let x = self.get(st, *a);
                let y = self.get(st, *b);
                let r = match &cv {
                    Val::C(k) => {
                        if *k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    Val::T(t) => self.ite_val(st, *t, *ty, &x, &y)?,
                    Val::A(cs) => {
                        let _ = cty;
                        let e = match self.m.tys[*ty as usize] {
                            Ty::Vec(_, e) => e,
                            _ => eng!("select"),
                        };
                        match (&x, &y) {
                            (Val::A(p), Val::A(q)) => {
                                let mut v = vec![];
                                for i in 0..cs.len() {
                                    v.push(match &cs[i] {
                                        Val::C(1) => p[i].clone(),
                                        Val::C(_) => q[i].clone(),
                                        Val::T(t) => self.ite_val(st, *t, e, &p[i], &q[i])?,
                                        _ => eng!("select"),
                                    });
                                }
                                Val::A(Rc::new(v))
                            }
                            _ => eng!("select"),
                        }
                    }
                };
                self.set(st, *dst, r);
            }
            I::Call { dst, ret, callee, args, normal } => {
                let mut av = Vec::with_capacity(args.len());
                for (o, _) in args {
                    av.push(self.get(st, *o));
                }
                let s = match callee {
                    Callee::Sym(s) => *s,
                    Callee::Ptr(p) => {
                        let p = self.get(st, *p);
                        let a = self.conc(st, &p)?;
                        let id = a >> 32;
                        if id < FUNC_BASE || (id - FUNC_BASE) as usize >= self.m.syms.len() {
                            return Err(Stop::Violation("memory".into(), "call through a bad function pointer".into()));
                        }
                        (id - FUNC_BASE) as u32
                    }
                    Callee::Asm => {
                        // only empty asm (black_box, barriers) occurs: identity on nothing
                        st.frames.last_mut().unwrap().ip += 1;
                        return Ok(());
                    }
                };
                match self.handler(s)? {
                    H::Func(f) => {
                        if st.spec > 0 && st.frames.len() > 60 {
                            return Err(Stop::Merge);
                        }
                        if st.frames.len() > 400 {
                            return Err(Stop::Bound("call depth".into()));
                        }
                        self.push_frame(st, f, av, *dst, *normal);
                        return Ok(());
                    }
                    H::Panic => {
                        if st.spec > 0 {
                            return Err(Stop::Merge);
                        }
                        let loc = self.location(st, &av);
                        return Err(Stop::Violation("panic".into(), format!("{} at {}", self.m.syms[s as usize].short, loc)));
                    }
                    H::Intr(name) => {
                        let tys: Vec<TyId> = args.iter().map(|a| a.1).collect();
                        match crate::intrin::call(self, st, &name, &av, &tys, *ret, *dst, *normal)? {
                            Some(v) => {
                                self.set(st, *dst, v);
                                if let Some(n) = normal {
                                    return self.goto(st, *n);
                                }
                            }
                            None => return Ok(()), // control was transferred
                        }
                    }
                }
            }
            I::ExtractV { dst, a, idx } => {
                let mut v = self.get(st, *a);
                for &i in idx {
                    v = match &v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => eng!("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
            }
            I::InsertV { dst, ty, a, v, idx } => {
                let x = self.get(st, *a);
                let nv = self.get(st, *v);
                let _ = ty;
                fn ins(x: &Val, idx: &[u32], nv: Val) -> Val {
                    if idx.is_empty() {
                        return nv;
                    }
                    match x {
                        Val::A(e) => {
                            let mut e = e.as_ref().clone();
                            e[idx[0] as usize] = ins(&e[idx[0] as usize], &idx[1..], nv);
                            Val::A(Rc::new(e))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&x, idx, nv);
                self.set(st, *dst, r);
            }
            I::ExtractE { dst, a, i, .. } => {
                let x = self.get(st, *a);
                let i = self.get(st, *i);
                let i = self.conc(st, &i)?;
                match x {
                    Val::A(e) => {
                        let v = e[i as usize].clone();
                        self.set(st, *dst, v)
                    }
                    _ => eng!("extractelement"),
                }
            }
            I::InsertE { dst, a, v, i, .. } => {
                let x = self.get(st, *a);
                let i = self.get(st, *i);
                let i = self.conc(st, &i)?;
                let nv = self.get(st, *v);
                match x {
                    Val::A(e) => {
                        let mut e = e.as_ref().clone();
                        e[i as usize] = nv;
                        self.set(st, *dst, Val::A(Rc::new(e)))
                    }
                    _ => eng!("insertelement"),
                }
            }
            I::Shuffle { dst, a, b, mask, .. } => {
                let x = self.get(st, *a);
                let y = self.get(st, *b);
                match (x, y) {
                    (Val::A(p), Val::A(q)) => {
                        let v = mask
                            .iter()
                            .map(|&k| {
                                if k < 0 {
                                    p[0].clone()
                                } else if (k as usize) < p.len() {
                                    p[k as usize].clone()
                                } else {
                                    q[k as usize - p.len()].clone()
                                }
                            })
                            .collect();
                        self.set(st, *dst, Val::A(Rc::new(v)))
                    }
                    _ => eng!("shuffle"),
                }
            }
            I::Rmw { dst, op, ty, ptr, v } => {
                let p = self.get(st, *ptr);
                let p = Val::C(self.conc(st, &p)?);
                let nv = self.get(st, *v);
                let old = self.load(st, &p, *ty)?;
                let w = self.m.bits(*ty);
                let r = match op.as_str() {
                    "add" => self.bin(st, B::Add, w, &old, &nv)?,
                    "sub" => self.bin(st, B::Sub, w, &old, &nv)?,
                    "and" => self.bin(st, B::And, w, &old, &nv)?,
                    "or" => self.bin(st, B::Or, w, &old, &nv)?,
                    "xor" => self.bin(st, B::Xor, w, &old, &nv)?,
                    "xchg" => nv,
                    _ => eng!("atomicrmw {}", op),
                };
                self.store(st, &p, *ty, &r)?;
                self.set(st, *dst, old);
            }
            I::CmpXchg { dst, ty, ptr, cmp, new } => {
                let p = self.get(st, *ptr);
                let p = Val::C(self.conc(st, &p)?);
                let c = self.get(st, *cmp);
                let nv = self.get(st, *new);
                let old = self.load(st, &p, *ty)?;
                let w = self.m.bits(*ty);
                let e = self.icmp(P::Eq, w, &old, &c);
                let e = self.conc(st, &e)?;
                if e == 1 {
                    self.store(st, &p, *ty, &nv)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::C(e)])));
            }
            I::Copy { dst, a } => {
                let v = self.get(st, *a);
                self.set(st, *dst, v);
            }
            I::Nop => {}
            I::Br(b) => return self.goto(st, *b),
            I::CondBr { c, t, f } => {
                let cv = self.get(st, *c);
                return match cv {
                    Val::C(k) => self.goto(st, if k == 1 { *t } else { *f }),
                    Val::T(x) => self.branch(st, x, *t, *f),
                    _ => eng!("br"),
                };
            }
            I::Switch { ty, v, def, cases } => {
                let x = self.get(st, *v);
                match x {
                    Val::C(k) => {
                        let to = cases.iter().find(|c| c.0 == k).map_or(*def, |c| c.1);
                        return self.goto(st, to);
                    }
                    Val::T(t) => {
                        let t = self.subst(st, t);
                        if let Some(k) = self.ar.as_const(t) {
                            let to = cases.iter().find(|c| c.0 == k as u64).map_or(*def, |c| c.1);
                            return self.goto(st, to);
                        }
                        if st.spec > 0 {
                            return Err(Stop::Merge);
                        }
                        let w = self.m.bits(*ty);
                        // condition per distinct target
                        let mut conds: Vec<(u32, T)> = vec![];
                        let mut any = self.ar.ff;
                        for (k, to) in cases {
                            let kc = self.ar.cst(w, *k as u128);
                            let e = self.ar.eq(t, kc);
                            any = self.ar.or(any, e);
                            if *to == *def {
                                continue;
                            }
                            match conds.iter_mut().find(|c| c.0 == *to) {
                                Some(c) => c.1 = self.ar.or(c.1, e),
                                None => conds.push((*to, e)),
                            }
                        }
                        let mut dc = self.ar.ff;
                        for c in &conds {
                            dc = self.ar.or(dc, c.1);
                        }
                        let dc = self.ar.not(dc);
                        conds.push((*def, dc));
                        let mut mine = None;
                        for &(to, c) in &conds {
                            if c == self.ar.ff {
                                continue;
                            }
                            if self.eval(st, c) == 1 {
                                mine = Some((to, c));
                            } else {
                                match self.query(st, c) {
                                    Ok(Some(m)) => {
                                        let mut o = self.fork(st);
                                        o.model = m;
                                        self.add(&mut o, c);
                                        if self.is_unreachable(func, to) {
                                            continue;
                                        }
                                        self.goto(&mut o, to)?;
                                        self.work.push(o);
                                    }
                                    Ok(None) => {}
                                    Err(()) => self.unknown_branches += 1,
                                }
                            }
                        }
                        match mine {
                            Some((to, c)) => {
                                self.add(st, c);
                                return self.goto(st, to);
                            }
                            None => eng!("switch: model takes no case"),
                        }
                    }
                    _ => eng!("switch"),
                }
            }
            I::Ret(v, _) => {
                if matches!(st.spec_stop, Some((d, _)) if st.frames.len() <= d) && st.spec > 0 {
                    return Err(Stop::Merge);
                }
                let v = match v {
                    Some(o) => self.get(st, *o),
                    None => Val::C(0),
                };
                return self.ret(st, v);
            }
            I::Unreachable => {
                if st.spec > 0 {
                    return Err(Stop::Merge);
                }
                eng!("unreachable executed")
            }
            I::Unsupported(s) => eng!("unsupported {}", s),
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(())
    }
    fn is_unreachable(&self, f: &Func, b: u32) -> bool {
        matches!(f.blocks[b as usize].insts.first(), Some(I::Unreachable))
    }
    /// Source location of a panic: one of the arguments points to a core::panic::Location.
    fn location(&mut self, st: &mut State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::C(a) = a {
                let id = a >> 32;
                if (GLOB_BASE..FUNC_BASE).contains(&id) && a & 0xffffffff == 0 {
                    if let Ok(o) = self.obj(st, id) {
                        if o.size == 24 {
                            let rd = |i: usize, n: usize| -> u64 { (0..n).map(|k| (o.data[i + k] as u64) << (8 * k)).sum() };
                            let (p, l, line, col) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4));
                            if (GLOB_BASE..FUNC_BASE).contains(&(p >> 32)) && l < 300 {
                                if let Ok(s) = self.obj(st, p >> 32) {
                                    if l <= s.size {
                                        return format!("{}:{}:{}", String::from_utf8_lossy(&s.data[..l as usize]), line, col);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        format!("{:?}", self.backtrace(st))
    }

    /// Report a violation found under the current model of `st`.
    pub fn report(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}|{}", kind, msg);
        if !self.vio_seen.insert(key) {
            return;
        }
        let inputs = st.log.iter().map(|&v| self.ar.eval(v, st.model.gen, &st.model.v) as u64).collect();
        let trace = self.backtrace(st);
        if self.cfg.verbose {
            eprintln!("VIOL {} {} {:?}", kind, msg, trace);
        }
        self.viols.push(Viol { kind: kind.into(), msg: msg.into(), inputs, trace });
    }
    /// Assert `c` on this path.
    pub fn check(&mut self, st: &mut State, c: T, kind: &str, msg: &str) -> R<()> {
        self.checks += 1;
        let c = self.subst(st, c);
        if c == self.ar.tt {
            self.checks_trivial += 1;
            return Ok(());
        }
        let nc = self.ar.not(c);
        if self.eval(st, c) == 0 {
            self.report(st, kind, msg);
            match self.query(st, c) {
                Ok(Some(m)) => {
                    st.model = m;
                    self.add(st, c);
                    Ok(())
                }
                _ => Err(Stop::Exit),
            }
        } else {
            // without the path condition, over the subterms the two sides share
            let base = if self.ar.op(c) == Op::Not { self.ar.n(c).a } else { c };
            if let Some((k, mut f)) = self.ar.cut(base) {
                let k = if base == c { self.ar.not(k) } else { k };
                if k == self.ar.ff {
                    self.checks_trivial += 1;
                    return Ok(());
                }
                if k != self.ar.tt {
                    f.push(k);
                    if let Res::Unsat = self.smt.check_quick(&mut self.ar, &f) {
                        return Ok(());
                    }
                }
            }
            match self.query(st, nc) {
                Ok(Some(m)) => {
                    let mut o = st.clone();
                    o.model = m;
                    self.report(&o, kind, msg);
                    self.add(st, c);
                }
                Ok(None) => {}
                Err(()) => {
                    self.unknown_checks += 1;
                }
            }
            Ok(())
        }
    }
    pub fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        let c = self.subst(st, c);
        if c == self.ar.tt {
            return Ok(());
        }
        if c == self.ar.ff {
            return Err(Stop::Infeasible);
        }
        if self.eval(st, c) == 1 {
            self.add(st, c);
            return Ok(());
        }
        match self.query(st, c) {
            Ok(Some(m)) => {
                st.model = m;
                self.add(st, c);
                Ok(())
            }
            Ok(None) => Err(Stop::Infeasible),
            Err(()) => {
                self.unknown_branches += 1;
                Err(Stop::Bound("solver gave no answer for an assumption".into()))
            }
        }
    }

    /// Run one state until it ends (forks go to self.work).
    pub fn run_state(&mut self, mut st: State) {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xfff == 0 {
                if Instant::now() > self.cfg.deadline {
                    self.work.push(st);
                    return;
                }
                if st.steps > self.cfg.max_steps {
                    // replayed with a time limit: either it does not end, or the bound was too small
                    self.end(&st, Stop::Violation("hang".into(), format!("no end after {} instructions", self.cfg.max_steps)));
                    return;
                }
            }
            if let Err(s) = self.step(&mut st) {
                self.end(&st, s);
                return;
            }
        }
    }
    pub fn end(&mut self, st: &State, s: Stop) {
        self.paths += 1;
        self.symvars_max = self.symvars_max.max(st.log.len());
        let k = match s {
            Stop::Done => "done".to_string(),
            Stop::Infeasible => "assume".to_string(),
            Stop::Exit => "violated".to_string(),
            Stop::Violation(kind, msg) => {
                self.report(st, &kind, &msg);
                "violated".to_string()
            }
            Stop::Bound(b) => format!("bound: {}", b),
            Stop::Engine(e) => {
                let e2 = format!("{} in {:?}", e, self.backtrace(st).iter().take(4).collect::<Vec<_>>());
                if self.errors.len() < 20 {
                    self.errors.push(e2);
                }
                "engine error".to_string()
            }
            Stop::Merge => "engine error".to_string(),
        };
        let n = self.ends.entry(k.clone()).or_default();
        *n += 1;
        // inputs of the 1st, 2nd, 4th, 8th ... path that ran to its end, for replay on the real code
        if k == "done" && n.is_power_of_two() && self.witness.len() < 8 {
            let w = st.log.iter().map(|&v| self.ar.eval(v, st.model.gen, &st.model.v) as u64).collect();
            self.witness.push(w);
        }
    }
    /// Depth-first exploration until the work list is empty, or it reaches `limit` states.
    pub fn explore(&mut self, limit: usize) {
        loop {
            if self.viols.len() >= self.cfg.max_viol || Instant::now() > self.cfg.deadline {
                return;
            }
            if self.work.len() >= limit {
                return;
            }
            let st = if limit == usize::MAX {
                match self.work.pop() {
                    Some(s) => s,
                    None => return,
                }
            } else {
                if self.work.is_empty() {
                    return;
                }
                self.work.remove(0)
            };
            self.run_state(st);
        }
    }
}
impl State {
    fn clone_globals_only(&self) -> State {
        State {
            frames: vec![],
            heap: vec![],
            stack: vec![],
            globals: Default::default(),
            pc: vec![],
            known: Default::default(),
            known_sup: 0,
            kver: 0,
            model: self.model.clone(),
            log: vec![],
            steps: 0,
            forks: 0,
            spec: 0,
            spec_stop: None,
            spec_hit: false,
            spec_phis: vec![],
        }
    }
}

pub fn uses(i: &I, f: &mut dyn FnMut(Opr)) {
    match i {
        I::Bin { a, b, .. } | I::ICmp { a, b, .. } | I::FCmp { a, b, .. } | I::Shuffle { a, b, .. } => {
            f(*a);
            f(*b)
        }
        I::FNeg { a, .. } | I::Cast { a, .. } | I::ExtractV { a, .. } | I::Copy { a, .. } => f(*a),
        I::Load { ptr, .. } => f(*ptr),
        I::Store { val, ptr, .. } => {
            f(*val);
            f(*ptr)
        }
        I::Alloca { n, .. } => f(*n),
        I::Gep { base, idx, .. } => {
            f(*base);
            for x in idx {
                f(x.0)
            }
        }
        I::Select { c, a, b, .. } => {
            f(*c);
            f(*a);
            f(*b)
        }
        I::Call { callee, args, .. } => {
            if let Callee::Ptr(o) = callee {
                f(*o)
            }
            for x in args {
                f(x.0)
            }
        }
        I::InsertV { a, v, .. } => {
            f(*a);
            f(*v)
        }
        I::ExtractE { a, i, .. } => {
            f(*a);
            f(*i)
        }
        I::InsertE { a, v, i, .. } => {
            f(*a);
            f(*v);
            f(*i)
        }
        I::Rmw { ptr, v, .. } => {
            f(*ptr);
            f(*v)
        }
        I::CmpXchg { ptr, cmp, new, .. } => {
            f(*ptr);
            f(*cmp);
            f(*new)
        }
        I::CondBr { c, .. } => f(*c),
        I::Switch { v, .. } => f(*v),
        I::Ret(Some(o), _) => f(*o),
        I::Nop | I::Br(_) | I::Ret(None, _) | I::Unreachable | I::Unsupported(_) => {}
    }
}
