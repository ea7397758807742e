//! Hash-consed bit-vector terms with local simplification.
//! Booleans are 1-bit vectors.  Widths up to 128 bits may be constants; wider terms exist only as
//! concatenations (data movement).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type T = u32;
pub const NONE: T = u32::MAX;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

/// Value facts: unsigned and signed intervals and known bits (only meaningful for w <= 64).
#[derive(Clone, Copy, Debug)]
pub struct Info {
    pub lo: u64,
    pub hi: u64,
    pub slo: i64,
    pub shi: i64,
    pub kz: u64,
    pub ko: u64,
    pub sup: u32,
    /// number of constant leaves if this is an ite tree with constant leaves (0: is not)
    pub leaves: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, T>,
    pub sups: Vec<Vec<u64>>,
    sup_map: HashMap<Vec<u64>, u32>,
    sup_union: FxMap<(u32, u32), u32>,
    pub nvars: u32,
    pub var_w: Vec<u32>,
    pub var_term: Vec<T>,
    pub var_name: Vec<String>,
    /// variables that stand for a value kept elsewhere and must not reach a solver
    pub opaque: Vec<T>,
    cut_vars: FxMap<(u32, u32), T>,
    // evaluation cache
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    pub tt: T,
    pub ff: T,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
pub fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        return v as i64;
    }
    if w == 0 {
        return 0;
    }
    let s = 64 - w;
    ((v << s) as i64) >> s
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            info: vec![],
            map: Default::default(),
            sups: vec![vec![]],
            sup_map: HashMap::new(),
            sup_union: Default::default(),
            nvars: 0,
            var_w: vec![],
            var_term: vec![],
            var_name: vec![],
            opaque: vec![],
            cut_vars: Default::default(),
            ev_gen: vec![],
            ev_val: vec![],
            tt: 0,
            ff: 0,
        };
        a.sup_map.insert(vec![], 0);
        a.ff = a.cst(1, 0);
        a.tt = a.cst(1, 1);
        a
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn op(&self, t: T) -> Op {
        self.nodes[t as usize].op
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn i(&self, t: T) -> &Info {
        &self.info[t as usize]
    }
    #[inline]
    pub fn as_const(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn is_const(&self, t: T) -> bool {
        self.op(t) == Op::Const
    }

    fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.sup_union.get(&key) {
            return r;
        }
        let (x, y) = (&self.sups[a as usize], &self.sups[b as usize]);
        let n = x.len().max(y.len());
        let v: Vec<u64> = (0..n)
            .map(|i| x.get(i).unwrap_or(&0) | y.get(i).unwrap_or(&0))
            .collect();
        let r = self.intern_sup(v);
        self.sup_union.insert(key, r);
        r
    }
    fn intern_sup(&mut self, v: Vec<u64>) -> u32 {
        if let Some(&r) = self.sup_map.get(&v) {
            return r;
        }
        let r = self.sups.len() as u32;
        self.sups.push(v.clone());
        self.sup_map.insert(v, r);
        r
    }
    pub fn sup_overlap(&self, a: u32, b: u32) -> bool {
        let (x, y) = (&self.sups[a as usize], &self.sups[b as usize]);
        x.iter().zip(y.iter()).any(|(p, q)| p & q != 0)
    }
    pub fn sup_join(&mut self, a: u32, b: u32) -> u32 {
        self.union(a, b)
    }
    pub fn sup_vars(&self, s: u32) -> Vec<u32> {
        let mut r = vec![];
        for (i, &x) in self.sups[s as usize].iter().enumerate() {
            let mut x = x;
            while x != 0 {
                let b = x.trailing_zeros();
                r.push(i as u32 * 64 + b);
                x &= x - 1;
            }
        }
        r
    }

    fn mk(&mut self, op: Op, w: u32, a: T, b: T, c: T, k: u128) -> T {
        let n = Node { op, w, a, b, c, k };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let info = self.compute_info(&n);
        // A term whose value is fixed by interval/known-bit analysis is that constant.
        if op != Op::Const && w <= 64 && info.lo == info.hi {
            let t = self.cst(w, info.lo as u128);
            self.map.insert(n, t);
            return t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.info.push(info);
        self.map.insert(n, t);
        t
    }

    fn compute_info(&mut self, n: &Node) -> Info {
        let w = n.w;
        let m = mask64(w);
        let mut kz: u64 = !m;
        let mut ko: u64 = 0;
        let mut lo: u64 = 0;
        let mut hi: u64 = m;
        let mut slo: i64 = if w >= 64 { i64::MIN } else if w == 0 { 0 } else { -(1i64 << (w - 1)) };
        let mut shi: i64 = if w >= 64 { i64::MAX } else if w == 0 { 0 } else { (1i64 << (w - 1)) - 1 };
        let full_slo = slo;
        let full_shi = shi;
        let mut sup = 0;
        let mut leaves = 0;
        for x in [n.a, n.b, n.c] {
            if x != NONE {
                let s = self.info[x as usize].sup;
                sup = self.union(sup, s);
            }
        }
        let g = |x: T| self.info[x as usize];
        let small = w <= 64;
        match n.op {
            Op::Const => {
                leaves = 1;
                if small {
                    let v = n.k as u64;
                    lo = v;
                    hi = v;
                    slo = sx64(v, w);
                    shi = slo;
                    kz = !v;
                    ko = v;
                }
            }
            Op::Var => {
                let id = n.k as usize;
                let mut v = vec![0u64; id / 64 + 1];
                v[id / 64] |= 1 << (id % 64);
                sup = self.intern_sup(v);
            }
            _ if !small => {}
            Op::Add => {
                let (x, y) = (g(n.a), g(n.b));
                if let (Some(l), Some(h)) = (x.lo.checked_add(y.lo), x.hi.checked_add(y.hi)) {
                    if h <= m {
                        lo = l;
                        hi = h;
                    }
                }
                // both wrap exactly once
                let l2 = x.lo as u128 + y.lo as u128;
                let h2 = x.hi as u128 + y.hi as u128;
                if l2 > m as u128 && h2 <= 2 * (m as u128) + 1 {
                    lo = (l2 & m as u128) as u64;
                    hi = (h2 & m as u128) as u64;
                }
                let l = x.slo as i128 + y.slo as i128;
                let h = x.shi as i128 + y.shi as i128;
                if l >= full_slo as i128 && h <= full_shi as i128 {
                    slo = l as i64;
                    shi = h as i64;
                }
                let tz = (x.kz.trailing_ones()).min(y.kz.trailing_ones());
                kz |= mask64(tz.min(64));
            }
            Op::Sub => {
                let (x, y) = (g(n.a), g(n.b));
                if x.lo >= y.hi {
                    lo = x.lo - y.hi;
                    hi = x.hi - y.lo;
                }
                let l = x.slo as i128 - y.shi as i128;
                let h = x.shi as i128 - y.slo as i128;
                if l >= full_slo as i128 && h <= full_shi as i128 {
                    slo = l as i64;
                    shi = h as i64;
                }
                let tz = (x.kz.trailing_ones()).min(y.kz.trailing_ones());
                kz |= mask64(tz.min(64));
            }
            Op::Mul => {
                let (x, y) = (g(n.a), g(n.b));
                let h = x.hi as u128 * y.hi as u128;
                if h <= m as u128 {
                    lo = x.lo * y.lo;
                    hi = h as u64;
                }
                let c = [
                    x.slo as i128 * y.slo as i128,
                    x.slo as i128 * y.shi as i128,
                    x.shi as i128 * y.slo as i128,
                    x.shi as i128 * y.shi as i128,
                ];
                let l = *c.iter().min().unwrap();
                let h = *c.iter().max().unwrap();
                if l >= full_slo as i128 && h <= full_shi as i128 {
                    slo = l as i64;
                    shi = h as i64;
                }
                let tz = (x.kz.trailing_ones() + y.kz.trailing_ones()).min(64);
                kz |= mask64(tz);
            }
            Op::UDiv => {
                let (x, y) = (g(n.a), g(n.b));
                if y.lo > 0 {
                    lo = x.lo / y.hi;
                    hi = x.hi / y.lo;
                }
            }
            Op::URem => {
                let (x, y) = (g(n.a), g(n.b));
                if y.lo > 0 {
                    hi = x.hi.min(y.hi - 1);
                    if x.hi < y.lo {
                        lo = x.lo
                    }
                }
            }
            Op::SDiv => {
                let (x, y) = (g(n.a), g(n.b));
                if y.slo > 0 {
                    let c = [x.slo / y.slo, x.slo / y.shi, x.shi / y.slo, x.shi / y.shi];
                    slo = *c.iter().min().unwrap();
                    shi = *c.iter().max().unwrap();
                }
            }
            Op::SRem => {
                let (x, y) = (g(n.a), g(n.b));
                if y.slo > 0 {
                    slo = if x.slo < 0 { (-(y.shi - 1)).max(x.slo) } else { 0 };
                    shi = if x.shi > 0 { (y.shi - 1).min(x.shi) } else { 0 };
                }
            }
            Op::Shl => {
                let (x, y) = (g(n.a), g(n.b));
                let tz = (x.kz.trailing_ones() as u64 + y.lo).min(64) as u32;
                kz |= mask64(tz);
            }
            Op::LShr => {
                let (x, y) = (g(n.a), g(n.b));
                hi = if y.lo >= 64 { 0 } else { x.hi >> y.lo };
            }
            Op::AShr => {
                let (x, _y) = (g(n.a), g(n.b));
                slo = x.slo.min(0);
                shi = x.shi.max(0);
                if x.slo >= 0 {
                    slo = 0
                }
                if x.shi < 0 {
                    shi = -1
                }
            }
            Op::And => {
                let (x, y) = (g(n.a), g(n.b));
                kz |= x.kz | y.kz;
                ko = x.ko & y.ko;
                hi = x.hi.min(y.hi);
            }
            Op::Or => {
                let (x, y) = (g(n.a), g(n.b));
                kz |= x.kz & y.kz;
                ko = (x.ko | y.ko) & m;
                lo = x.lo.max(y.lo);
            }
            Op::Xor => {
                let (x, y) = (g(n.a), g(n.b));
                kz |= (x.kz & y.kz) | (x.ko & y.ko);
                ko = ((x.kz & y.ko) | (x.ko & y.kz)) & m;
            }
            Op::Not => {
                let x = g(n.a);
                kz |= x.ko;
                ko = x.kz & m;
                lo = !x.hi & m;
                hi = !x.lo & m;
                slo = !x.shi;
                shi = !x.slo;
            }
            Op::Concat => {
                let (x, y) = (g(n.a), g(n.b));
                let wb = self.nodes[n.b as usize].w;
                kz = ((x.kz << wb) | (y.kz & mask64(wb))) | !m;
                ko = ((x.ko << wb) | y.ko) & m;
                lo = (x.lo << wb) | y.lo;
                hi = (x.hi << wb) | y.hi;
                slo = (x.slo << wb) | y.lo as i64;
                shi = (x.shi << wb) | y.hi as i64;
            }
            Op::Extract => {
                let wa = self.nodes[n.a as usize].w;
                let x = g(n.a);
                let l = n.k as u32;
                if wa <= 64 {
                    kz = (x.kz >> l) | !m;
                    ko = (x.ko >> l) & m;
                    if l + w == wa {
                        lo = x.lo >> l;
                        hi = x.hi >> l;
                        slo = x.slo >> l;
                        shi = x.shi >> l;
                    } else {
                        if x.hi >> l <= m {
                            lo = x.lo >> l;
                            hi = x.hi >> l;
                        }
                        if (x.slo >> l) >= full_slo && (x.shi >> l) <= full_shi {
                            slo = x.slo >> l;
                            shi = x.shi >> l;
                        }
                    }
                }
            }
            Op::ZExt => {
                let wa = self.nodes[n.a as usize].w;
                let x = g(n.a);
                if wa <= 64 {
                    kz = x.kz | !mask64(wa);
                    ko = x.ko;
                    lo = x.lo;
                    hi = x.hi;
                }
            }
            Op::SExt => {
                let x = g(n.a);
                let wa = self.nodes[n.a as usize].w;
                let sb = 1u64 << (wa - 1);
                slo = x.slo;
                shi = x.shi;
                if x.kz & sb != 0 {
                    kz |= x.kz;
                    ko = x.ko;
                    lo = x.lo;
                    hi = x.hi;
                } else if x.ko & sb != 0 {
                    ko = (x.ko | !mask64(wa)) & m;
                    kz |= x.kz & mask64(wa);
                } else {
                    kz |= x.kz & mask64(wa);
                    ko = x.ko & mask64(wa);
                }
            }
            Op::Ite => {
                let (x, y) = (g(n.b), g(n.c));
                kz = (x.kz & y.kz) | !m;
                ko = x.ko & y.ko;
                lo = x.lo.min(y.lo);
                hi = x.hi.max(y.hi);
                slo = x.slo.min(y.slo);
                shi = x.shi.max(y.shi);
                if x.leaves > 0 && y.leaves > 0 {
                    leaves = (x.leaves + y.leaves).min(100000);
                }
            }
            Op::Eq | Op::Ult | Op::Slt => {}
        }
        if small && w > 0 {
            // reconcile
            for _ in 0..2 {
                lo = lo.max(ko);
                hi = hi.min(!kz & m);
                let sb = 1u64 << (w - 1);
                // signed from unsigned
                if hi < sb {
                    slo = slo.max(lo as i64);
                    shi = shi.min(hi as i64);
                } else if lo >= sb {
                    slo = slo.max(sx64(lo, w));
                    shi = shi.min(sx64(hi, w));
                }
                // unsigned from signed
                if slo >= 0 {
                    lo = lo.max(slo as u64);
                    hi = hi.min(shi as u64);
                } else if shi < 0 {
                    lo = lo.max(slo as u64 & m);
                    hi = hi.min(shi as u64 & m);
                }
                // known zeros from hi
                let lz = if hi == 0 { 64 } else { hi.leading_zeros() };
                kz |= !mask64(64 - lz);
                if lo > hi {
                    // contradiction: term only occurs under an infeasible path; keep it sane
                    lo = 0;
                    hi = m;
                    slo = full_slo;
                    shi = full_shi;
                    kz = !m;
                    ko = 0;
                }
            }
        }
        Info { lo, hi, slo, shi, kz, ko, sup, leaves }
    }

    pub fn cst(&mut self, w: u32, v: u128) -> T {
        debug_assert!(w <= 128);
        self.mk(Op::Const, w, NONE, NONE, NONE, v & mask(w))
    }
    pub fn var(&mut self, w: u32, name: String) -> T {
        let id = self.nvars;
        self.nvars += 1;
        self.var_w.push(w);
        self.var_name.push(name);
        let t = self.mk(Op::Var, w, NONE, NONE, NONE, id as u128);
        self.var_term.push(t);
        t
    }
    pub fn boolc(&self, b: bool) -> T {
        if b {
            self.tt
        } else {
            self.ff
        }
    }

    // ---- bit structure -------------------------------------------------------------------
    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.n(t);
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        if w == n.w {
            return t;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wb);
                let l = self.extract(n.b, lo, wb - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    return self.cst(w, 0);
                }
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wa - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo >= wa {
                    let s = self.extract(n.a, wa - 1, 1);
                    return self.sext(s, w);
                }
                let x = self.extract(n.a, lo, wa - lo);
                return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                };
            }
            Op::Not => {
                let a = self.extract(n.a, lo, w);
                return self.not(a);
            }
            Op::Ite => {
                let i = *self.i(t);
                if (i.leaves > 0 && i.leaves <= 512) || self.is_const(n.b) || self.is_const(n.c) {
                    let mut memo = FxMap::default();
                    return self.map_tree(t, &mut |s, l| s.extract(l, lo, w), &mut memo);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // truncate through modular arithmetic when an operand gets simpler
                let simple = |t: T| matches!(self.op(t), Op::Const | Op::ZExt | Op::SExt | Op::Concat | Op::Var | Op::Extract) || self.i(t).leaves > 0;
                if simple(n.a) && simple(n.b) || matches!(n.op, Op::Add) && (self.is_const(n.b)) {
                    let a = self.extract(n.a, 0, w);
                    let b = self.extract(n.b, 0, w);
                    return match n.op {
                        Op::Add => self.add(a, b),
                        Op::Sub => self.sub(a, b),
                        _ => self.mul(a, b),
                    };
                }
            }
            _ => {}
        }
        // known bits
        if n.w <= 64 {
            let i = self.i(t);
            let m = mask64(w);
            if ((i.kz >> lo) & m) == m {
                return self.cst(w, 0);
            }
            if ((i.kz | i.ko) >> lo) & m == m {
                let v = (i.ko >> lo) & m;
                return self.cst(w, v as u128);
            }
        }
        self.mk(Op::Extract, w, t, NONE, NONE, lo as u128)
    }

    fn map_tree(&mut self, t: T, f: &mut dyn FnMut(&mut Arena, T) -> T, memo: &mut FxMap<T, T>) -> T {
        let n = self.n(t);
        if n.op == Op::Ite {
            if let Some(&r) = memo.get(&t) {
                return r;
            }
            let b = self.map_tree(n.b, f, memo);
            let c = self.map_tree(n.c, f, memo);
            let r = self.ite(n.a, b, c);
            memo.insert(t, r);
            r
        } else {
            f(self, t)
        }
    }
    fn tree_ok(&self, t: T) -> bool {
        let l = self.i(t).leaves;
        l >= 2 && l <= 600
    }

    pub fn concat(&mut self, h: T, l: T) -> T {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Const && nl.op == Op::Const && w <= 128 {
            return self.cst(w, (nh.k << wl) | nl.k);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        if nh.op == Op::Extract {
            if nh.k as u32 == wl && nl.op != Op::Extract && nl.op != Op::Const && self.extract(nh.a, 0, wl) == l {
                return self.extract(nh.a, 0, w);
            }
            if nl.op == Op::Extract && nl.a == nh.a && nh.k as u32 == nl.k as u32 + wl {
                return self.extract(nh.a, nl.k as u32, w);
            }
            // low part is the whole of the source
            if nh.a == l && nh.k as u32 == wl {
                // cannot happen (extract beyond)
            }
            // concat(extract, concat(extract, x))
            if nl.op == Op::Concat {
                let m = self.n(nl.a);
                if m.op == Op::Extract && m.a == nh.a && nh.k as u32 == m.k as u32 + m.w {
                    let x = self.extract(nh.a, m.k as u32, wh + m.w);
                    return self.concat(x, nl.b);
                }
            }
            // a copy of the low part's sign bit
            if wh == 1 && nl.op == Op::SExt {
                let i = self.n(nl.a);
                if i.op == Op::Extract && i.a == nh.a && i.k as u32 + i.w - 1 == nh.k as u32 {
                    return self.sext(nl.a, w);
                }
            }
        }
        if nl.op == Op::Concat && nh.op == Op::Const && self.is_const(nl.a) && wh + self.w(nl.a) <= 128 {
            let x = self.concat(h, nl.a);
            return self.concat(x, nl.b);
        }
        // right-assoc: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt {
            let wa = self.w(nh.a);
            let r = self.concat(nh.a, l);
            let _ = wa;
            return self.zext(r, w);
        }
        if nh.op == Op::SExt {
            let r = self.concat(nh.a, l);
            return self.sext(r, w);
        }
        // concat(ext of bool sign ...) left as is
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let b = self.concat(nh.b, nl.b);
            let c = self.concat(nh.c, nl.c);
            return self.ite(nh.a, b, c);
        }
        if nh.op == Op::Ite && nl.op == Op::Const && self.tree_ok(h) {
            let mut memo = FxMap::default();
            return self.map_tree(h, &mut |s, x| s.concat(x, l), &mut memo);
        }
        // all-zero / sign-copy high part of a sign-extended value
        if nh.op == Op::SExt && nl.op == Op::Extract {}
        self.mk(Op::Concat, w, h, l, NONE, 0)
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let n = self.n(t);
        if n.w == w {
            return t;
        }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const if w <= 128 => return self.cst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.tree_ok(t) && w <= 128 => {
                let mut memo = FxMap::default();
                return self.map_tree(t, &mut |s, x| s.zext(x, w), &mut memo);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, t, NONE, NONE, 0)
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let n = self.n(t);
        if n.w == w {
            return t;
        }
        match n.op {
            Op::Const if w <= 128 => return self.cst(w, sx(n.k, n.w) as u128),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.tree_ok(t) && w <= 128 => {
                let mut memo = FxMap::default();
                return self.map_tree(t, &mut |s, x| s.sext(x, w), &mut memo);
            }
            _ => {}
        }
        if n.w <= 64 && self.i(t).kz & (1u64 << (n.w - 1)) != 0 {
            return self.zext(t, w);
        }
        self.mk(Op::SExt, w, t, NONE, NONE, 0)
    }

    // ---- bitwise -------------------------------------------------------------------------
    pub fn not(&mut self, t: T) -> T {
        let n = self.n(t);
        match n.op {
            Op::Const => return self.cst(n.w, !n.k),
            Op::Not => return n.a,
            Op::Ite if self.is_const(n.b) || self.is_const(n.c) || self.tree_ok(t) => {
                let b = self.not(n.b);
                let c = self.not(n.c);
                return self.ite(n.a, b, c);
            }
            _ => {}
        }
        self.mk(Op::Not, n.w, t, NONE, NONE, 0)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.cst(w, na.k & nb.k);
            }
            if nb.k == 0 {
                return b;
            }
            if nb.k == mask(w) && w <= 128 {
                return a;
            }
            if w <= 64 {
                let i = *self.i(a);
                let m = nb.k as u64;
                if (!m & mask64(w)) & !i.kz == 0 {
                    return a;
                }
                if na.op == Op::And && self.is_const(na.b) {
                    let k = self.and(na.b, b);
                    return self.and(na.a, k);
                }
                // contiguous mask -> extract
                let tz = m.trailing_zeros();
                let run = (m >> tz).trailing_ones();
                if tz + run >= 64 || (m >> (tz + run)) == 0 {
                    let x = self.extract(a, tz, run);
                    let z = self.zext(x, w - tz);
                    if tz == 0 {
                        return z;
                    }
                    let zero = self.cst(tz, 0);
                    return self.concat(z, zero);
                }
                if self.tree_ok(a) {
                    let mut memo = FxMap::default();
                    return self.map_tree(a, &mut |s, x| s.and(x, b), &mut memo);
                }
            }
        }
        if w == 1 {
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                return self.ff;
            }
            // absorption a & (a & x) ; a & (a | x)
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return b;
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(na.a), self.w(nb.a));
            if wa == wb {
                let x = self.and(na.a, nb.a);
                return self.zext(x, w);
            }
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            let x = self.and(na.a, nb.a);
            return self.sext(x, w);
        }
        self.mk(Op::And, w, a, b, NONE, 0)
    }
    fn order(&self, a: T, b: T) -> (T, T) {
        // constants to the right, otherwise by id
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if ca && !cb {
            (b, a)
        } else if cb && !ca {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.cst(w, na.k | nb.k);
            }
            if nb.k == 0 {
                return a;
            }
            if nb.k == mask(w) {
                return b;
            }
            if self.tree_ok(a) {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.or(x, b), &mut memo);
            }
        }
        if w == 1 {
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                return self.tt;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return a;
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return b;
            }
        } else if w <= 64 {
            // disjoint bits: assemble by segments
            let (ia, ib) = (*self.i(a), *self.i(b));
            let m = mask64(w);
            if (ia.kz | ib.kz) & m == m {
                let (za, zb) = (ia.kz & m, ib.kz & m);
                // segments: owner a where !za, owner b where !zb, zero otherwise
                let mut segs: Vec<(u32, u32, u8)> = vec![];
                let mut i = 0;
                while i < w {
                    let own = |i: u32| -> u8 {
                        if (za >> i) & 1 == 0 {
                            1
                        } else if (zb >> i) & 1 == 0 {
                            2
                        } else {
                            0
                        }
                    };
                    let o = own(i);
                    let s = i;
                    while i < w && own(i) == o {
                        i += 1;
                    }
                    segs.push((s, i - s, o));
                }
                if segs.len() <= 6 {
                    let mut r = NONE;
                    for &(s, l, o) in &segs {
                        let p = match o {
                            1 => self.extract(a, s, l),
                            2 => self.extract(b, s, l),
                            _ => self.cst(l, 0),
                        };
                        r = if r == NONE { p } else { self.concat(p, r) };
                    }
                    return r;
                }
            }
        }
        self.mk(Op::Or, w, a, b, NONE, 0)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.cst(w, na.k ^ nb.k);
            }
            if nb.k == 0 {
                return a;
            }
            if nb.k == mask(w) {
                return self.not(a);
            }
            if self.tree_ok(a) {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.xor(x, b), &mut memo);
            }
        }
        if w == 1 {
            if na.op == Op::Not {
                let x = self.xor(na.a, b);
                return self.not(x);
            }
            if nb.op == Op::Not {
                let x = self.xor(a, nb.a);
                return self.not(x);
            }
        }
        if w <= 64 && (self.i(a).kz | self.i(b).kz) & mask64(w) == mask64(w) {
            return self.or(a, b);
        }
        self.mk(Op::Xor, w, a, b, NONE, 0)
    }
    // ---- arithmetic ----------------------------------------------------------------------
    pub fn add(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.cst(w, na.k.wrapping_add(nb.k));
            }
            if nb.k == 0 {
                return a;
            }
            if na.op == Op::Add && self.is_const(na.b) {
                let k = self.add(na.b, b);
                return self.add(na.a, k);
            }
            if na.op == Op::Sub && self.is_const(na.a) {
                let k = self.add(na.a, b);
                return self.sub(k, na.b);
            }
            if self.tree_ok(a) {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.add(x, b), &mut memo);
            }
        }
        if w == 1 {
            return self.xor(a, b);
        }
        // b + (b ? k1 : k2), b one bit
        for (x, y) in [(a, b), (b, a)] {
            let (nx, ny) = (self.n(x), self.n(y));
            if nx.op == Op::ZExt && ny.op == Op::Ite && self.w(nx.a) == 1 && ny.a == nx.a && self.is_const(ny.b) && self.is_const(ny.c) {
                let one = self.cst(w, 1);
                let p = self.add(ny.b, one);
                return self.ite(nx.a, p, ny.c);
            }
        }
        // disjoint bits
        if w <= 64 && nb.op != Op::Const && (self.i(a).kz | self.i(b).kz) & mask64(w) == mask64(w) {
            return self.or(a, b);
        }
        if na.op == Op::Add && self.is_const(na.b) {
            let x = self.add(na.a, b);
            return self.add(x, na.b);
        }
        if nb.op == Op::Add && self.is_const(nb.b) {
            let x = self.add(a, nb.a);
            return self.add(x, nb.b);
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        self.mk(Op::Add, w, a, b, NONE, 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            let k = self.cst(w, (nb.k ^ mask(w)).wrapping_add(1));
            return self.add(a, k);
        }
        if na.op == Op::Const && self.tree_ok(b) {
            let mut memo = FxMap::default();
            return self.map_tree(b, &mut |s, x| s.sub(a, x), &mut memo);
        }
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
            if self.is_const(na.b) {
                let x = self.sub(na.a, b);
                return self.add(x, na.b);
            }
        }
        if nb.op == Op::Add && self.is_const(nb.b) {
            let x = self.sub(a, nb.a);
            return self.sub(x, nb.b);
        }
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if na.op == Op::Const {
            // c - (c2 - x)
            if nb.op == Op::Sub && self.is_const(nb.a) {
                let k = self.sub(a, nb.a);
                return self.add(nb.b, k);
            }
        }
        self.mk(Op::Sub, w, a, b, NONE, 0)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.cst(w, na.k.wrapping_mul(nb.k));
            }
            if nb.k == 0 {
                return b;
            }
            if nb.k == 1 {
                return a;
            }
            if nb.k == mask(w) {
                return self.neg(a);
            }
            if nb.k.is_power_of_two() {
                return self.shl_c(a, nb.k.trailing_zeros());
            }
            if self.tree_ok(a) {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.mul(x, b), &mut memo);
            }
            if na.op == Op::Mul && self.is_const(na.b) {
                let k = self.mul(na.b, b);
                return self.mul(na.a, k);
            }
        }
        if w == 1 {
            return self.and(a, b);
        }
        let small = |s: &Arena, t: T| {
            let l = s.i(t).leaves;
            l >= 2 && l <= 4
        };
        if small(self, a) {
            let mut memo = FxMap::default();
            return self.map_tree(a, &mut |s, x| s.mul(b, x), &mut memo);
        }
        if small(self, b) {
            let mut memo = FxMap::default();
            return self.map_tree(b, &mut |s, x| s.mul(a, x), &mut memo);
        }
        // sign flip: x * -1
        self.mk(Op::Mul, w, a, b, NONE, 0)
    }
    pub fn neg(&mut self, a: T) -> T {
        let z = self.cst(self.w(a), 0);
        self.sub(z, a)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const && nb.k != 0 {
            if na.op == Op::Const {
                return self.cst(w, na.k / nb.k);
            }
            if nb.k.is_power_of_two() {
                return self.lshr_c(a, nb.k.trailing_zeros());
            }
            if self.tree_ok(a) {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.udiv(x, b), &mut memo);
            }
        }
        if w <= 64 && self.i(a).hi < self.i(b).lo {
            return self.cst(w, 0);
        }
        // narrow
        if w <= 64 {
            let hi = self.i(a).hi.max(self.i(b).hi);
            let need = (64 - hi.leading_zeros()).max(1);
            if need < w {
                let x = self.extract(a, 0, need);
                let y = self.extract(b, 0, need);
                let d = self.udiv(x, y);
                // division by zero never executes (checked by the executor)
                return self.zext(d, w);
            }
        }
        self.mk(Op::UDiv, w, a, b, NONE, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if nb.op == Op::Const && nb.k != 0 {
            if na.op == Op::Const {
                return self.cst(w, na.k % nb.k);
            }
            if nb.k.is_power_of_two() {
                let m = self.cst(w, nb.k - 1);
                return self.and(a, m);
            }
            if self.tree_ok(a) {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.urem(x, b), &mut memo);
            }
        }
        if w <= 64 && self.i(a).hi < self.i(b).lo {
            return a;
        }
        if w <= 64 {
            let hi = self.i(a).hi.max(self.i(b).hi);
            let need = (64 - hi.leading_zeros()).max(1);
            if need < w {
                let x = self.extract(a, 0, need);
                let y = self.extract(b, 0, need);
                let d = self.urem(x, y);
                return self.zext(d, w);
            }
        }
        self.mk(Op::URem, w, a, b, NONE, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            if nb.k != 0 {
                return self.cst(w, sx(na.k, w).wrapping_div(sx(nb.k, w)) as u128);
            }
        }
        if w <= 64 && self.i(a).slo >= 0 && self.i(b).slo > 0 {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, NONE, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            if nb.k != 0 {
                return self.cst(w, sx(na.k, w).wrapping_rem(sx(nb.k, w)) as u128);
            }
        }
        if w <= 64 && self.i(a).slo >= 0 && self.i(b).slo > 0 {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, NONE, 0)
    }
    pub fn shl_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.cst(w, 0);
        }
        let x = self.extract(a, 0, w - k);
        let z = self.cst(k, 0);
        self.concat(x, z)
    }
    pub fn lshr_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.cst(w, 0);
        }
        let x = self.extract(a, k, w - k);
        self.zext(x, w)
    }
    pub fn ashr_c(&mut self, a: T, k: u32) -> T {
        let w = self.w(a);
        let k = k.min(w - 1);
        let x = self.extract(a, k, w - k);
        self.sext(x, w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.as_const(b) {
            return self.shl_c(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.mk(Op::Shl, w, a, b, NONE, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.as_const(b) {
            return self.lshr_c(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.mk(Op::LShr, w, a, b, NONE, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        if let Some(k) = self.as_const(b) {
            return self.ashr_c(a, k.min(255) as u32);
        }
        let w = self.w(a);
        self.mk(Op::AShr, w, a, b, NONE, 0)
    }
    // ---- predicates ----------------------------------------------------------------------
    pub fn eq(&mut self, a: T, b: T) -> T {
        let (a, b) = self.order(a, b);
        if a == b {
            return self.tt;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (na, nb) = (self.n(a), self.n(b));
        if w <= 64 {
            let (x, y) = (self.i(a), self.i(b));
            if x.hi < y.lo || y.hi < x.lo || x.shi < y.slo || y.shi < x.slo || (x.kz & y.ko) != 0 || (x.ko & y.kz) != 0 {
                return self.ff;
            }
        }
        if nb.op == Op::Const {
            if na.op == Op::Const {
                return self.ff;
            }
            if w == 1 {
                return if nb.k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let wa = self.w(na.a);
                    if nb.k > mask(wa) {
                        return self.ff;
                    }
                    let k = self.cst(wa, nb.k);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let wa = self.w(na.a);
                    let k = self.cst(wa, nb.k);
                    if sx(nb.k, w) != sx(nb.k & mask(wa), wa) {
                        return self.ff;
                    }
                    return self.eq(na.a, k);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.cst(w - wl, nb.k >> wl);
                    let kl = self.cst(wl, nb.k);
                    let x = self.eq(na.a, kh);
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add if self.is_const(na.b) => {
                    let k = self.sub(b, na.b);
                    return self.eq(na.a, k);
                }
                Op::Sub if self.is_const(na.a) => {
                    let k = self.sub(na.a, b);
                    return self.eq(na.b, k);
                }
                Op::Sub if nb.k == 0 => return self.eq(na.a, na.b),
                Op::Xor if nb.k == 0 => return self.eq(na.a, na.b),
                Op::Xor if self.is_const(na.b) => {
                    let k = self.xor(na.b, b);
                    return self.eq(na.a, k);
                }
                Op::Not => {
                    let k = self.not(b);
                    return self.eq(na.a, k);
                }
                Op::Or if nb.k == 0 => {
                    let x = self.eq(na.a, b);
                    let y = self.eq(na.b, b);
                    return self.and(x, y);
                }
                Op::Ite if self.tree_ok(a) || self.is_const(na.b) || self.is_const(na.c) => {
                    let mut memo = FxMap::default();
                    return self.map_tree(a, &mut |s, x| s.eq(x, b), &mut memo);
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (wa, wb) = (self.w(na.a), self.w(nb.a));
                let m = wa.max(wb);
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.eq(x, y);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
            if na.op == Op::Add && self.is_const(na.b) && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
        }
        self.mk(Op::Eq, 1, a, b, NONE, 0)
    }
    pub fn ne(&mut self, a: T, b: T) -> T {
        let x = self.eq(a, b);
        self.not(x)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return self.boolc(na.k < nb.k);
        }
        if w <= 64 {
            let (x, y) = (self.i(a), self.i(b));
            if x.hi < y.lo {
                return self.tt;
            }
            if x.lo >= y.hi {
                return self.ff;
            }
            if nb.op == Op::Const && w > 1 && nb.k == 1u128 << (w - 1) {
                let e = self.extract(a, w - 1, 1);
                return self.not(e);
            }
            if na.op == Op::Const && w > 1 && na.k == (1u128 << (w - 1)) - 1 {
                return self.extract(b, w - 1, 1);
            }
            if nb.op == Op::Const {
                if nb.k as u64 == x.lo + 1 {
                    let k = self.cst(w, nb.k - 1);
                    return self.eq(a, k);
                }
                if nb.k as u64 == x.hi {
                    return self.ne(a, b);
                }
            }
            if na.op == Op::Const {
                if na.k as u64 == y.lo {
                    return self.ne(a, b);
                }
                if na.k as u64 + 1 == y.hi {
                    let k = self.cst(w, na.k + 1);
                    return self.eq(k, b);
                }
            }
        }
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        match (na.op, nb.op) {
            (Op::ZExt, Op::ZExt) => {
                let m = self.w(na.a).max(self.w(nb.a));
                let x = self.zext(na.a, m);
                let y = self.zext(nb.a, m);
                return self.ult(x, y);
            }
            (Op::ZExt, Op::Const) => {
                let wa = self.w(na.a);
                // nb.k <= mask(wa) guaranteed by interval test above
                if nb.k <= mask(wa) {
                    let k = self.cst(wa, nb.k);
                    return self.ult(na.a, k);
                }
            }
            (Op::Const, Op::ZExt) => {
                let wb = self.w(nb.a);
                if na.k <= mask(wb) {
                    let k = self.cst(wb, na.k);
                    return self.ult(k, nb.a);
                }
            }
            (Op::Concat, Op::Const) => {
                // high part decides when the low constant part is zero
                let wl = self.w(na.b);
                if nb.k & mask(wl) == 0 {
                    let k = self.cst(w - wl, nb.k >> wl);
                    return self.ult(na.a, k);
                }
            }
            (Op::Const, Op::Concat) => {
                let wl = self.w(nb.b);
                if na.k & mask(wl) == mask(wl) {
                    let k = self.cst(w - wl, na.k >> wl);
                    return self.ult(k, nb.a);
                }
            }
            (Op::Ite, Op::Const) if self.tree_ok(a) => {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.ult(x, b), &mut memo);
            }
            (Op::Const, Op::Ite) if self.tree_ok(b) => {
                let mut memo = FxMap::default();
                return self.map_tree(b, &mut |s, x| s.ult(a, x), &mut memo);
            }
            _ => {}
        }
        // narrow both by value range
        if w <= 64 {
            let hi = self.i(a).hi.max(self.i(b).hi);
            let need = (64 - hi.leading_zeros()).max(1);
            if need < w {
                let x = self.extract(a, 0, need);
                let y = self.extract(b, 0, need);
                return self.ult(x, y);
            }
        }
        self.mk(Op::Ult, 1, a, b, NONE, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.ff;
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const {
            return self.boolc(sx(na.k, w) < sx(nb.k, w));
        }
        if w <= 64 {
            let (x, y) = (*self.i(a), *self.i(b));
            if x.shi < y.slo {
                return self.tt;
            }
            if x.slo >= y.shi {
                return self.ff;
            }
            if x.slo >= 0 && y.slo >= 0 {
                return self.ult(a, b);
            }
            if x.shi < 0 && y.shi < 0 {
                return self.ult(a, b);
            }
        }
        match (na.op, nb.op) {
            (Op::SExt, Op::SExt) => {
                let m = self.w(na.a).max(self.w(nb.a));
                let x = self.sext(na.a, m);
                let y = self.sext(nb.a, m);
                return self.slt(x, y);
            }
            (Op::SExt, Op::Const) => {
                let wa = self.w(na.a);
                if sx(nb.k, w) == sx(nb.k & mask(wa), wa) {
                    let k = self.cst(wa, nb.k);
                    return self.slt(na.a, k);
                }
            }
            (Op::Const, Op::SExt) => {
                let wb = self.w(nb.a);
                if sx(na.k, w) == sx(na.k & mask(wb), wb) {
                    let k = self.cst(wb, na.k);
                    return self.slt(k, nb.a);
                }
            }
            (Op::Ite, Op::Const) if self.tree_ok(a) => {
                let mut memo = FxMap::default();
                return self.map_tree(a, &mut |s, x| s.slt(x, b), &mut memo);
            }
            (Op::Const, Op::Ite) if self.tree_ok(b) => {
                let mut memo = FxMap::default();
                return self.map_tree(b, &mut |s, x| s.slt(a, x), &mut memo);
            }
            _ => {}
        }
        if nb.op == Op::Const && nb.k == 0 {
            return self.extract(a, w - 1, 1);
        }
        if na.op == Op::Const && na.k == mask(w) {
            let x = self.extract(b, w - 1, 1);
            return self.not(x);
        }
        self.mk(Op::Slt, 1, a, b, NONE, 0)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k == 1 { a } else { b };
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            if a == self.tt {
                return self.or(c, b);
            }
            if b == self.ff {
                return self.and(c, a);
            }
            if a == self.ff {
                let x = self.not(c);
                return self.and(x, b);
            }
            if b == self.tt {
                let x = self.not(c);
                return self.or(x, a);
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        let mut a = a;
        let mut b = b;
        if na.op == Op::Ite && na.a == c {
            a = na.b;
        }
        if nb.op == Op::Ite && nb.a == c {
            b = nb.c;
        }
        if a == b {
            return a;
        }
        // c ? x:k : x:j
        let (na2, nb2) = (self.n(a), self.n(b));
        if na2.op == Op::Concat && nb2.op == Op::Concat && na2.a == nb2.a {
            let lo = self.ite(c, na2.b, nb2.b);
            return self.concat(na2.a, lo);
        }
        // c ? x + k : x
        if w > 1 {
            let base = |n: &Node, t: T, s: &Arena| if n.op == Op::Add && s.is_const(n.b) { n.a } else { t };
            let (pa, pb) = (base(&na, a, self), base(&nb, b, self));
            if pa == pb && !self.is_const(pa) {
                let ka = if pa == a { self.cst(w, 0) } else { na.b };
                let kb = if pb == b { self.cst(w, 0) } else { nb.b };
                let k = self.ite(c, ka, kb);
                return self.add(pa, k);
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    /// The node `n` over other arguments.
    pub fn rebuild(&mut self, n: Node, a: T, b: T, c: T) -> T {
        match n.op {
            Op::Ite => self.ite(a, b, c),
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::SRem => self.srem(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Not => self.not(a),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, n.k as u32, n.w),
            Op::ZExt => self.zext(a, n.w),
            Op::SExt => self.sext(a, n.w),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Const | Op::Var => unreachable!(),
        }
    }
    /// `c` with the terms `cuts` replaced by fresh variables; with what is known of their ranges.
    pub fn cut_at(&mut self, c: T, cuts: &[T]) -> (T, Vec<T>) {
        let mut map: FxMap<T, T> = Default::default();
        let mut facts = vec![];
        self.cut_map(cuts.to_vec(), &mut map, &mut facts);
        let mut stack = vec![(c, false)];
        while let Some((t, done)) = stack.pop() {
            if map.contains_key(&t) {
                continue;
            }
            let m = self.n(t);
            if matches!(m.op, Op::Const | Op::Var) {
                map.insert(t, t);
                continue;
            }
            if !done {
                stack.push((t, true));
                for y in [m.a, m.b, m.c] {
                    if y != NONE && !map.contains_key(&y) {
                        stack.push((y, false));
                    }
                }
                continue;
            }
            let g = |y: T| if y == NONE { NONE } else { map[&y] };
            let (a, b, c) = (g(m.a), g(m.b), g(m.c));
            let r = if (a, b, c) == (m.a, m.b, m.c) { t } else { self.rebuild(m, a, b, c) };
            map.insert(t, r);
        }
        (map[&c], facts)
    }
    fn cut_map(&mut self, cuts: Vec<T>, map: &mut FxMap<T, T>, facts: &mut Vec<T>) {
        let mut idx: FxMap<u32, u32> = Default::default();
        for t in cuts {
            if matches!(self.op(t), Op::Const | Op::Var) || map.contains_key(&t) {
                continue;
            }
            let w = self.w(t);
            let i = idx.entry(w).or_default();
            let key = (w, *i);
            *i += 1;
            let v = match self.cut_vars.get(&key) {
                Some(&v) => v,
                None => {
                    let v = self.var(w, format!("cut{}_{}", key.1, w));
                    self.cut_vars.insert(key, v);
                    v
                }
            };
            map.insert(t, v);
            if w <= 64 {
                let i = *self.i(t);
                let full = 1i128 << (w - 1);
                if (i.slo as i128) > -full {
                    let k = self.cst(w, i.slo as u64 as u128);
                    let g = self.sle(k, v);
                    facts.push(g);
                }
                if (i.shi as i128) < full - 1 {
                    let k = self.cst(w, i.shi as u64 as u128);
                    let g = self.sle(v, k);
                    facts.push(g);
                }
            }
        }
    }
    /// The condition `c`, an equality or inequality of two terms, with the largest subterms both
    /// sides share replaced by fresh variables (so if it is valid, so is `c`).
    pub fn cut(&mut self, c: T) -> Option<(T, Vec<T>)> {
        let n = self.n(c);
        if !matches!(n.op, Op::Eq | Op::Ult | Op::Slt) || self.is_const(n.a) || self.is_const(n.b) {
            return None;
        }
        let mut q: std::collections::BTreeMap<T, u8> = Default::default();
        *q.entry(n.a).or_default() |= 1;
        *q.entry(n.b).or_default() |= 2;
        let mut inner = vec![];
        let mut cuts: Vec<T> = vec![];
        while let Some((t, s)) = q.pop_last() {
            let m = self.n(t);
            if matches!(m.op, Op::Const | Op::Var) {
                continue;
            }
            if s == 3 && !matches!(m.op, Op::ZExt | Op::SExt) && m.w > 1 {
                cuts.push(t);
                continue;
            }
            inner.push(t);
            if inner.len() > 400 {
                return None;
            }
            for y in [m.a, m.b, m.c] {
                if y != NONE {
                    *q.entry(y).or_default() |= s;
                }
            }
        }
        if cuts.is_empty() {
            return None;
        }
        let mut facts = vec![];
        let mut map: FxMap<T, T> = Default::default();
        self.cut_map(cuts, &mut map, &mut facts);
        inner.sort();
        for t in inner {
            let m = self.n(t);
            let g = |y: T| if y == NONE { NONE } else { *map.get(&y).unwrap_or(&y) };
            let (a, b, c) = (g(m.a), g(m.b), g(m.c));
            let r = if (a, b, c) == (m.a, m.b, m.c) { t } else { self.rebuild(m, a, b, c) };
            map.insert(t, r);
        }
        let g = |y: T| *map.get(&y).unwrap_or(&y);
        let (a, b) = (g(n.a), g(n.b));
        Some((self.rebuild(n, a, b, NONE), facts))
    }
    pub fn umax(&mut self, a: T, b: T) -> T {
        let c = self.ult(a, b);
        self.ite(c, b, a)
    }
    pub fn umin(&mut self, a: T, b: T) -> T {
        let c = self.ult(a, b);
        self.ite(c, a, b)
    }
    pub fn smax(&mut self, a: T, b: T) -> T {
        let c = self.slt(a, b);
        self.ite(c, b, a)
    }
    pub fn smin(&mut self, a: T, b: T) -> T {
        let c = self.slt(a, b);
        self.ite(c, a, b)
    }

    // ---- evaluation ----------------------------------------------------------------------
    pub fn eval(&mut self, t: T, gen: u32, model: &[u64]) -> u128 {
        if self.ev_gen.len() < self.nodes.len() {
            self.ev_gen.resize(self.nodes.len() + 1024, 0);
            self.ev_val.resize(self.nodes.len() + 1024, 0);
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.ev_gen[xi] == gen {
                stack.pop();
                continue;
            }
            let n = self.nodes[xi];
            let mut ready = true;
            for y in [n.a, n.b, n.c] {
                if y != NONE && self.ev_gen[y as usize] != gen {
                    stack.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let w = n.w;
            let v = |t: T| self.ev_val[t as usize];
            let r: u128 = match n.op {
                Op::Const => n.k,
                Op::Var if self.opaque.contains(&x) => panic!("floating point value in a bit-vector formula"),
                Op::Var => *model.get(n.k as usize).unwrap_or(&0) as u128,
                Op::Add => v(n.a).wrapping_add(v(n.b)),
                Op::Sub => v(n.a).wrapping_sub(v(n.b)),
                Op::Mul => v(n.a).wrapping_mul(v(n.b)),
                Op::UDiv => {
                    let d = v(n.b);
                    if d == 0 {
                        mask(w)
                    } else {
                        v(n.a) / d
                    }
                }
                Op::URem => {
                    let d = v(n.b);
                    if d == 0 {
                        v(n.a)
                    } else {
                        v(n.a) % d
                    }
                }
                Op::SDiv => {
                    let (x, d) = (sx(v(n.a), w), sx(v(n.b), w));
                    if d == 0 {
                        if x < 0 {
                            1
                        } else {
                            mask(w)
                        }
                    } else {
                        x.wrapping_div(d) as u128
                    }
                }
                Op::SRem => {
                    let (x, d) = (sx(v(n.a), w), sx(v(n.b), w));
                    if d == 0 {
                        x as u128
                    } else {
                        x.wrapping_rem(d) as u128
                    }
                }
                Op::Shl => {
                    let s = v(n.b);
                    if s >= w as u128 {
                        0
                    } else {
                        v(n.a) << s
                    }
                }
                Op::LShr => {
                    let s = v(n.b);
                    if s >= w as u128 {
                        0
                    } else {
                        v(n.a) >> s
                    }
                }
                Op::AShr => {
                    let s = v(n.b).min(w as u128 - 1);
                    (sx(v(n.a), w) >> s) as u128
                }
                Op::And => v(n.a) & v(n.b),
                Op::Or => v(n.a) | v(n.b),
                Op::Xor => v(n.a) ^ v(n.b),
                Op::Not => !v(n.a),
                Op::Concat => (v(n.a) << self.nodes[n.b as usize].w.min(127)) | v(n.b),
                Op::Extract => v(n.a) >> n.k.min(127),
                Op::ZExt => v(n.a),
                Op::SExt => sx(v(n.a), self.nodes[n.a as usize].w) as u128,
                Op::Ite => {
                    if v(n.a) == 1 {
                        v(n.b)
                    } else {
                        v(n.c)
                    }
                }
                Op::Eq => (v(n.a) == v(n.b)) as u128,
                Op::Ult => (v(n.a) < v(n.b)) as u128,
                Op::Slt => {
                    let wa = self.nodes[n.a as usize].w;
                    (sx(v(n.a), wa) < sx(v(n.b), wa)) as u128
                }
            };
            self.ev_val[xi] = r & mask(w);
            self.ev_gen[xi] = gen;
            stack.pop();
        }
        self.ev_val[t as usize]
    }
}
