//! Accuracy obligations: |val - clamp(c0 + sum coef_k * x_k, lo, hi)| <= tol over the reals.
//! The bit-vector term is translated to linear real arithmetic: every arithmetic shift becomes a
//! division plus a bounded noise variable, every addition/multiplication is exact provided the
//! interval analysis shows that it does not wrap.  `unsat` is therefore a proof for all inputs; a
//! `sat` answer is turned into a concrete candidate that is confirmed on the bit-vector term.
use crate::exec::*;
use crate::ll::*;
use crate::smt::Res;
use crate::term::{sx, FxMap, Op, T};
use std::fmt::Write as _;
use std::io::Write;
use std::rc::Rc;
use std::process::{Command, Stdio};
use std::time::Instant;

#[derive(Default, Clone)]
pub struct LinStats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub secs: f64,
    pub noise: u64,
    pub inconclusive: u64,
    pub abstracted: u64,
}

struct Tr<'a> {
    m: &'a Mach,
    out: String,
    s: FxMap<T, V>,
    u: FxMap<T, V>,
    b: FxMap<T, String>,
    leaf: FxMap<T, V>,
    shr: FxMap<(T, u32), V>,
    flip: FxMap<(T, u32), V>,
    rng: Vec<(f64, f64)>,
    n: usize,
    noise: u64,
    abs: u64,
    small: FxMap<T, SmallLeaf>,
    rel: FxMap<(T, bool), (T, i128, i128)>,
    small_v: FxMap<T, V>,
    sets: FxMap<T, (T, Vec<(i128, i128)>)>,
    /// (term, signed view) = (a * leaf + e) / 1024 with e between the bounds
    near: FxMap<(T, bool), (T, i128, i128, i128)>,
}

/// A term that depends on few input bits, taken as an unknown of its own.
#[derive(Clone)]
struct SmallLeaf {
    vals: Vec<i128>,
}
#[derive(Default)]
struct Small {
    leaves: FxMap<T, SmallLeaf>,
    /// (term, signed view) = a * leaf + c for every value of those bits
    rel: FxMap<(T, bool), (T, i128, i128)>,
    /// a condition holds exactly when the leaf is in one of the intervals
    sets: FxMap<T, (T, Vec<(i128, i128)>)>,
    /// (term, signed view) = (a * leaf + e) / 1024 with e between the bounds
    near: FxMap<(T, bool), (T, i128, i128, i128)>,
}
const SMALL_BITS: usize = 12;

/// Input bits with one possible value on the path.
type Pins = FxMap<(u32, u32), bool>;

/// The input bits a term is computed from (other than those), or None if there are too many (or the term is big).
fn support_bits(m: &Mach, t: T, pins: &Pins) -> Option<Vec<(u32, u32)>> {
    let mut seen: FxMap<T, ()> = Default::default();
    let mut bits: Vec<(u32, u32)> = vec![];
    let mut stack = vec![t];
    let add = |bits: &mut Vec<(u32, u32)>, v: u32, lo: u32, w: u32| {
        for b in lo..lo + w {
            if !pins.contains_key(&(v, b)) && !bits.contains(&(v, b)) {
                bits.push((v, b));
            }
        }
        bits.len() <= SMALL_BITS
    };
    while let Some(x) = stack.pop() {
        if seen.insert(x, ()).is_some() {
            continue;
        }
        if seen.len() > 600 {
            return None;
        }
        let n = m.ar.n(x);
        match n.op {
            Op::Const => {}
            Op::Var => {
                if n.w > 64 || m.ar.opaque.contains(&x) || !add(&mut bits, n.k as u32, 0, n.w) {
                    return None;
                }
            }
            Op::Extract if m.ar.op(n.a) == Op::Var && m.ar.w(n.a) <= 64 => {
                if m.ar.opaque.contains(&n.a) || !add(&mut bits, m.ar.n(n.a).k as u32, n.k as u32, n.w) {
                    return None;
                }
            }
            _ => {
                for y in [n.a, n.b, n.c] {
                    if y != crate::term::NONE {
                        stack.push(y);
                    }
                }
            }
        }
    }
    Some(bits)
}
/// One evaluation generation and model per assignment of the bits.
fn assignments(m: &mut Mach, bits: &[(u32, u32)], pcs: &[(T, Vec<(u32, u32)>)], pins: &Pins) -> Vec<(u32, Vec<u64>)> {
    let nv = bits.iter().chain(pins.keys()).map(|b| b.0 as usize + 1).max().unwrap_or(0);
    let mut base = vec![0u64; nv];
    for (b, v) in pins {
        base[b.0 as usize] |= (*v as u64) << b.1;
    }
    let all: Vec<(u32, Vec<u64>)> = (0..1usize << bits.len())
        .map(|i| {
            let mut v = base.clone();
            for (k, b) in bits.iter().enumerate() {
                v[b.0 as usize] |= ((i >> k & 1) as u64) << b.1;
            }
            (m.fresh_gen(), v)
        })
        .collect();
    // only those the path allows
    let rel: Vec<T> = pcs.iter().filter(|p| p.1.iter().all(|b| bits.contains(b))).map(|p| p.0).collect();
    if rel.is_empty() {
        return all;
    }
    all.into_iter().filter(|(g, v)| rel.iter().all(|&c| m.ar.eval(c, *g, v) == 1)).collect()
}
/// `mode`: 0: exact relations only, 1: and rounded ones, 2: and rounded ones for look-ups, 3: none
fn small_terms(m: &mut Mach, pc: &[T], val: T, xs: &[T], mode: u32) -> Small {
    let mut r = Small::default();
    if mode == 3 {
        return r;
    }
    let mut pcs: Vec<(T, Vec<(u32, u32)>)> = vec![];
    let mut pins: Pins = Default::default();
    loop {
        let before = pins.len();
        pcs.clear();
        for &c in pc {
            if let Some(b) = support_bits(m, c, &pins) {
                if !b.is_empty() {
                    // bits that are the same in every assignment the condition allows
                    let all = assignments(m, &b, &[], &pins);
                    let ok: Vec<&(u32, Vec<u64>)> = { let mut k = vec![]; for a in &all { if m.ar.eval(c, a.0, &a.1) == 1 { k.push(a); } } k };
                    for &(v, k) in &b {
                        let mut vals = ok.iter().map(|a| a.1[v as usize] >> k & 1);
                        if let Some(first) = vals.next() {
                            if vals.all(|x| x == first) {
                                pins.insert((v, k), first == 1);
                            }
                        }
                    }
                }
                if !b.is_empty() {
                    pcs.push((c, b));
                }
            }
        }
        if pins.len() == before {
            break;
        }
    }
    let pins = &pins;
    let mut stack: Vec<T> = xs.to_vec();
    let mut seen: FxMap<T, ()> = Default::default();
    let mut leaves: Vec<(T, Vec<(u32, u32)>)> = vec![];
    while let Some(x) = stack.pop() {
        if seen.insert(x, ()).is_some() || m.ar.is_const(x) || m.ar.w(x) > 64 {
            continue;
        }
        let n = m.ar.n(x);
        {
            if let Some(mut bits) = support_bits(m, x, pins) {
                bits.sort();
                let all = assignments(m, &bits, &pcs, pins);
                let w = m.ar.w(x);
                let vals: Vec<i128> = all.iter().map(|(g, v)| sx(m.ar.eval(x, *g, v), w)).collect();
                r.leaves.insert(x, SmallLeaf { vals });
                leaves.push((x, bits));
                continue;
            }
        }
        if matches!(n.op, Op::Add | Op::Sub | Op::SExt | Op::ZExt | Op::Extract) {
            for y in [n.a, n.b] {
                if y != crate::term::NONE {
                    stack.push(y);
                }
            }
        }
    }
    if r.leaves.is_empty() {
        return r;
    }
    let mut asg: FxMap<Vec<(u32, u32)>, Rc<Vec<(u32, Vec<u64>)>>> = Default::default();
    seen.clear();
    let mut stack = vec![val];
    stack.extend(xs.iter().cloned());
    while let Some(t) = stack.pop() {
        if seen.insert(t, ()).is_some() || m.ar.is_const(t) {
            continue;
        }
        let n = m.ar.n(t);
        let mut hit = false;
        if n.w <= 64 && m.ar.sups[m.ar.i(t).sup as usize].iter().map(|x| x.count_ones()).sum::<u32>() <= 5 {
            if let Some(mut bits) = support_bits(m, t, pins) {
                bits.sort();
                let ls: Vec<T> = leaves.iter().filter(|l| l.1.iter().all(|b| bits.contains(b))).map(|l| l.0).collect();
                if !ls.is_empty() {
                    let all = match asg.get(&bits) {
                        Some(a) => a.clone(),
                        None => {
                            let a = Rc::new(assignments(m, &bits, &pcs, pins));
                            asg.insert(bits.clone(), a.clone());
                            a
                        }
                    };
                    if n.w == 1 && n.op == Op::Eq {
                        for &l in &ls {
                            if let Some(set) = set_of(m, t, &all, l) {
                                r.sets.insert(t, (l, set));
                                hit = true;
                                break;
                            }
                        }
                    }
                    for signed in [true, false] {
                        for &l in &ls {
                            if n.w == 1 {
                                break;
                            }
                            match affine_in(m, t, signed, &all, l) {
                                Some(Fit::Exact(a, c)) => {
                                    r.rel.insert((t, signed), (l, a, c));
                                    hit = true;
                                    break;
                                }
                                Some(Fit::Near(a, lo, hi)) if mode == 1 || (mode == 2 && (m.ar.i(t).leaves > 0 || (n.op == Op::Ite && m.ar.op(n.a) == Op::Extract))) => {
                                    r.near.insert((t, signed), (l, a, lo, hi));
                                    hit = true;
                                    break;
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
        if !hit || n.op == Op::Ite {
            for y in [n.a, n.b, n.c] {
                if y != crate::term::NONE {
                    stack.push(y);
                }
            }
        }
    }
    r
}
/// The values of `x` for which the condition holds, if it depends on nothing else.
fn set_of(m: &mut Mach, t: T, asg: &[(u32, Vec<u64>)], x: T) -> Option<Vec<(i128, i128)>> {
    let wx = m.ar.w(x);
    let mut map: std::collections::BTreeMap<i128, bool> = Default::default();
    for (g, v) in asg {
        let c = m.ar.eval(t, *g, v) == 1;
        let k = sx(m.ar.eval(x, *g, v), wx);
        if *map.entry(k).or_insert(c) != c {
            return None;
        }
    }
    let mut r: Vec<(i128, i128)> = vec![];
    let mut open = false;
    for (k, c) in map {
        if c {
            if open {
                r.last_mut().unwrap().1 = k;
            } else {
                r.push((k, k));
            }
        }
        open = c;
    }
    if r.len() > 128 {
        return None;
    }
    Some(r)
}
enum Fit {
    Exact(i128, i128),
    Near(i128, i128, i128),
}
fn affine_in(m: &mut Mach, t: T, signed: bool, asg: &[(u32, Vec<u64>)], x: T) -> Option<Fit> {
    let (w, wx) = (m.ar.w(t), m.ar.w(x));
    let mut map: std::collections::BTreeMap<i128, i128> = Default::default();
    for (g, mv) in asg {
        let v = m.ar.eval(t, *g, mv);
        let v = if signed { sx(v, w) } else { v as i128 };
        let k = sx(m.ar.eval(x, *g, mv), wx);
        if *map.entry(k).or_insert(v) != v {
            return None;
        }
    }
    if map.is_empty() {
        return None;
    }
    if map.len() == 1 {
        return Some(Fit::Exact(0, *map.values().next().unwrap()));
    }
    let (x0, v0) = map.iter().next().map(|p| (*p.0, *p.1)).unwrap();
    let (x1, v1) = map.iter().last().map(|p| (*p.0, *p.1)).unwrap();
    let (dx, dv) = (x1 - x0, v1 - v0);
    if dv % dx == 0 {
        let a = dv / dx;
        if map.iter().all(|(x, v)| v - v0 == a * (x - x0)) {
            return Some(Fit::Exact(a, v0 - a * x0));
        }
    }
    // a rounded multiple
    if dv.abs() > 1 << 60 {
        return None;
    }
    let a = (dv * 1024 + dx / 2).div_euclid(dx);
    let (mut lo, mut hi) = (i128::MAX, i128::MIN);
    for (x, v) in &map {
        let e = v * 1024 - a * x;
        lo = lo.min(e);
        hi = hi.max(e);
    }
    if hi - lo > 2048 {
        return None;
    }
    Some(Fit::Near(a, lo, hi))
}

fn num(x: f64) -> String {
    // exact decimal of a double through its dyadic representation
    if x == 0.0 {
        return "0.0".into();
    }
    let bits = x.abs().to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) };
    let mut ex = e - 1075;
    let mut m = m as u128;
    while m & 1 == 0 && ex < 0 {
        m >>= 1;
        ex += 1;
    }
    let s = if ex >= 0 { format!("{}.0", m << ex.min(60)) } else { format!("(/ {}.0 {}.0)", m, pow2(-ex as u32)) };
    if x < 0.0 {
        format!("(- {})", s)
    } else {
        s
    }
}
fn pow2(k: u32) -> String {
    // decimal string of 2^k
    let mut d: Vec<u8> = vec![1];
    for _ in 0..k {
        let mut c = 0;
        for x in d.iter_mut() {
            let v = *x * 2 + c;
            *x = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
fn int(x: i128) -> String {
    if x < 0 {
        format!("(- {}.0)", -x)
    } else {
        format!("{}.0", x)
    }
}

/// An affine form over leaves, used to bound values much more tightly than intervals do.
#[derive(Clone, Debug)]
struct Aff {
    c: f64,
    k: Vec<(u32, f64)>,
}
#[derive(Clone)]
struct V {
    s: String,
    a: Rc<Aff>,
}
fn comb(x: &Aff, kx: f64, y: &Aff, ky: f64) -> Aff {
    let mut k = Vec::with_capacity(x.k.len() + y.k.len());
    let (mut i, mut j) = (0, 0);
    while i < x.k.len() || j < y.k.len() {
        if j >= y.k.len() || (i < x.k.len() && x.k[i].0 < y.k[j].0) {
            k.push((x.k[i].0, kx * x.k[i].1));
            i += 1;
        } else if i >= x.k.len() || y.k[j].0 < x.k[i].0 {
            k.push((y.k[j].0, ky * y.k[j].1));
            j += 1;
        } else {
            let v = kx * x.k[i].1 + ky * y.k[j].1;
            if v != 0.0 {
                k.push((x.k[i].0, v));
            }
            i += 1;
            j += 1;
        }
    }
    Aff { c: kx * x.c + ky * y.c, k }
}

impl<'a> Tr<'a> {
    fn range(&self, a: &Aff) -> (f64, f64) {
        let (mut lo, mut hi) = (a.c, a.c);
        for (l, k) in &a.k {
            let (x, y) = self.rng[*l as usize];
            let (p, q) = (k * x, k * y);
            lo += p.min(q);
            hi += p.max(q);
        }
        // room for rounding of the doubles
        let e = (lo.abs() + hi.abs()) * 1e-9 + 1e-3;
        (lo - e, hi + e)
    }
    fn leafaff(&mut self, lo: f64, hi: f64) -> Rc<Aff> {
        self.rng.push((lo, hi));
        Rc::new(Aff { c: 0.0, k: vec![(self.rng.len() as u32 - 1, 1.0)] })
    }
    fn def(&mut self, body: String, a: Aff) -> V {
        self.n += 1;
        let nm = format!("r{}", self.n);
        let _ = writeln!(self.out, "(define-fun {} () Real {})", nm, body);
        V { s: nm, a: Rc::new(a) }
    }
    fn fresh(&mut self, lo: i128, hi: i128) -> V {
        self.n += 1;
        let nm = format!("v{}", self.n);
        let _ = writeln!(self.out, "(declare-const {} Real)\n(assert (and (<= {} {}) (<= {} {})))", nm, int(lo), nm, nm, int(hi));
        V { s: nm, a: self.leafaff(lo as f64, hi as f64) }
    }
    fn abs(&mut self, t: T, signed: bool) -> V {
        let i = *self.m.ar.i(t);
        if let Some(l) = self.leaf.get(&t) {
            // a leaf is shared between views only when the value ranges agree
            if signed || i.slo >= 0 {
                return l.clone();
            }
        }
        self.abs += 1;
        if std::env::var("LSYM_LINDBG").is_ok() {
            let n = self.m.ar.n(t);
            eprintln!("abs {:?} w{} k={} [{},{}] u[{},{}] {}", n.op, n.w, n.k, i.slo, i.shi, i.lo, i.hi, self.show(t, 7));
        }
        if signed {
            let r = self.fresh(i.slo as i128, i.shi as i128);
            self.leaf.insert(t, r.clone());
            r
        } else {
            let r = self.fresh(i.lo as i128, i.hi as i128);
            if i.slo >= 0 {
                self.leaf.insert(t, r.clone());
            }
            r
        }
    }
    /// bits of input variables glued together: no arithmetic inside
    fn raw(&self, t: T) -> bool {
        let n = self.m.ar.n(t);
        match n.op {
            Op::Var => true,
            Op::Extract => self.raw(n.a),
            Op::Concat => self.raw(n.a) && self.raw(n.b),
            _ => false,
        }
    }
    fn show(&self, t: T, d: u32) -> String {
        if t == crate::term::NONE {
            return String::new();
        }
        let n = self.m.ar.n(t);
        if n.op == Op::Const {
            return format!("{}", sx(n.k, n.w));
        }
        if d == 0 {
            return format!("#{}", t);
        }
        format!("{:?}#{}:{}[{}]({} {} {})", n.op, t, n.w, n.k, self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1))
    }
    fn tr(&mut self, t: T, signed: bool) -> V {
        let cache = if signed { &self.s } else { &self.u };
        if let Some(r) = cache.get(&t) {
            return r.clone();
        }
        let r = self.tr0(t, signed);
        if signed {
            self.s.insert(t, r.clone());
        } else {
            self.u.insert(t, r.clone());
        }
        r
    }
    fn cst(v: i128) -> V {
        V { s: int(v), a: Rc::new(Aff { c: v as f64, k: vec![] }) }
    }
    fn small_leaf(&mut self, l: T) -> V {
        match self.small_v.get(&l) {
            Some(v) => v.clone(),
            None => {
                let vals = &self.small[&l].vals;
                let (lo, hi) = (*vals.iter().min().unwrap(), *vals.iter().max().unwrap());
                let v = self.fresh(lo, hi);
                self.small_v.insert(l, v.clone());
                v
            }
        }
    }
    fn tr0(&mut self, t: T, signed: bool) -> V {
        let ar = &self.m.ar;
        let n = ar.n(t);
        let w = n.w;
        if self.leaf.contains_key(&t) {
            return self.abs(t, signed);
        }
        if let Some(&(l, a, c)) = self.rel.get(&(t, signed)) {
            let v = self.small_leaf(l);
            if (a, c) == (1, 0) {
                return v;
            }
            let r = comb(&v.a, a as f64, &Aff { c: c as f64, k: vec![] }, 1.0);
            return self.def(format!("(+ {} (* {} {}))", int(c), int(a), v.s), r);
        }
        if let Some(&(l, a, lo, hi)) = self.near.get(&(t, signed)) {
            let v = self.small_leaf(l);
            self.noise += 1;
            let e = self.fresh(lo, hi);
            let r = comb(&v.a, a as f64 / 1024.0, &e.a, 1.0 / 1024.0);
            return self.def(format!("(/ (+ (* {} {}) {}) 1024.0)", int(a), v.s, e.s), r);
        }
        if w > 64 {
            return self.abs(t, signed);
        }
        let i = *ar.i(t);
        if !signed && i.slo >= 0 && n.op != Op::Extract && n.op != Op::ZExt && n.op != Op::Const {
            return self.tr(t, true);
        }
        if signed && n.op != Op::Const && i.slo >= 0 && (n.op == Op::ZExt) {
            return self.tr(t, false);
        }
        let (min, max) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
        let fits = |s: &Self, a: &Aff| {
            let (lo, hi) = s.range(a);
            // the value is an integer
            lo > min as f64 - 1.0 && hi < max as f64 + 1.0
        };
        match n.op {
            Op::Const => Self::cst(if signed { sx(n.k, w) } else { n.k as i128 }),
            Op::Add | Op::Sub => {
                let (a, b) = (self.tr(n.a, signed), self.tr(n.b, signed));
                let r = comb(&a.a, 1.0, &b.a, if n.op == Op::Add { 1.0 } else { -1.0 });
                if !fits(self, &r) {
                    return self.abs(t, signed);
                }
                self.def(format!("({} {} {})", if n.op == Op::Add { "+" } else { "-" }, a.s, b.s), r)
            }
            Op::Mul if ar.is_const(n.b) => {
                let k = if signed { sx(ar.n(n.b).k, w) } else { ar.n(n.b).k as i128 };
                let a = self.tr(n.a, signed);
                let r = comb(&a.a, k as f64, &Aff { c: 0.0, k: vec![] }, 0.0);
                if !fits(self, &r) {
                    return self.abs(t, signed);
                }
                self.def(format!("(* {} {})", int(k), a.s), r)
            }
            Op::SExt if signed => self.tr(n.a, true),
            Op::ZExt => self.tr(n.a, false),
            Op::Extract => {
                let wa = ar.w(n.a);
                if wa > 64 {
                    return self.abs(t, signed);
                }
                let k = n.k as u32;
                let ia = *ar.i(n.a);
                let a = self.tr(n.a, true);
                // known-zero low bits shrink the noise
                let tz = ia.kz.trailing_ones().min(k);
                let sh = (1i128 << k) as f64;
                let v = if k == 0 {
                    a
                } else if tz == k {
                    let r = comb(&a.a, 1.0 / sh, &Aff { c: 0.0, k: vec![] }, 0.0);
                    self.def(format!("(/ {} {})", a.s, int(1i128 << k)), r)
                } else if let Some(v) = self.shr.get(&(n.a, k)) {
                    v.clone()
                } else {
                    self.noise += 1;
                    let step = 1i128 << tz;
                    let nz = self.fresh(0, (1i128 << k) - step);
                    let r = comb(&a.a, 1.0 / sh, &nz.a, -1.0 / sh);
                    let v = self.def(format!("(/ (- {} {}) {})", a.s, nz.s, int(1i128 << k)), r);
                    // the floor of a non-negative value is not negative
                    let _ = writeln!(self.out, "(assert (=> (<= 0.0 {}) (<= 0.0 {})))", a.s, v.s);
                    self.shr.insert((n.a, k), v.clone());
                    v
                };
                if fits(self, &v.a) {
                    return v;
                }
                // truncation: exact whenever the value is in range
                let e = self.abs(t, signed);
                let _ = writeln!(self.out, "(assert (=> (and (< {} {}) (< {} {})) (= {} {})))", int(min - 1), v.s, v.s, int(max + 1), e.s, v.s);
                e
            }
            Op::Concat if self.raw(t) => self.abs(t, signed),
            Op::Concat => {
                let wb = ar.w(n.b);
                let m = (1i128 << wb) as f64;
                let bz = ar.is_const(n.b) && ar.n(n.b).k == 0;
                let a = self.tr(n.a, signed);
                let r = comb(&a.a, m, &Aff { c: 0.0, k: vec![] }, 0.0);
                let a = self.def(format!("(* {} {})", int(1i128 << wb), a.s), r);
                if bz {
                    return a;
                }
                let b = self.tr(n.b, false);
                let r = comb(&a.a, 1.0, &b.a, 1.0);
                self.def(format!("(+ {} {})", a.s, b.s), r)
            }
            Op::Not if signed => {
                let a = self.tr(n.a, true);
                let r = comb(&a.a, -1.0, &Aff { c: -1.0, k: vec![] }, 1.0);
                self.def(format!("(- (- 1.0) {})", a.s), r)
            }
            Op::Ite => {
                let (va, vb) = (n.b, n.c);
                if let Some(b) = self.decided(n.a) {
                    return self.tr(if b { va } else { vb }, signed);
                }
                match self.cond(n.a) {
                    Some(c) => {
                        let (a, b) = (self.tr(va, signed), self.tr(vb, signed));
                        // s ? x : -x  over one leaf x: a leaf of its own, shared by every multiple
                        if a.a.c == 0.0 && b.a.c == 0.0 && a.a.k.len() == 1 && b.a.k.len() == 1 && a.a.k[0].0 == b.a.k[0].0 && a.a.k[0].1 == -b.a.k[0].1 {
                            let (l, k) = a.a.k[0];
                            let key = (n.a, l);
                            let lf = match self.flip.get(&key) {
                                Some(v) => v.clone(),
                                None => {
                                    let (lo, hi) = self.rng[l as usize];
                                    let m = lo.abs().max(hi.abs()) as i128;
                                    let v = self.fresh(-m, m);
                                    self.flip.insert(key, v.clone());
                                    v
                                }
                            };
                            let r = comb(&lf.a, k, &Aff { c: 0.0, k: vec![] }, 0.0);
                            return self.def(format!("(* {} {})", num(k), lf.s), r);
                        }
                        let (x, y) = (self.range(&a.a), self.range(&b.a));
                        let lo = x.0.min(y.0).max(if signed { i.slo as f64 } else { i.lo as f64 });
                        let hi = x.1.max(y.1).min(if signed { i.shi as f64 } else { i.hi as f64 });
                        let l = self.leafaff(lo, hi);
                        let mut r = self.def(format!("(ite {} {} {})", c, a.s, b.s), Aff { c: 0.0, k: vec![] });
                        r.a = l;
                        r
                    }
                    None => self.abs(t, signed),
                }
            }
            _ => self.abs(t, signed),
        }
    }
    /// A comparison that the ranges of its operands decide.
    fn decided(&mut self, c: T) -> Option<bool> {
        let n = self.m.ar.n(c);
        match n.op {
            Op::Not => self.decided(n.a).map(|b| !b),
            Op::Slt | Op::Ult => {
                let s = n.op == Op::Slt;
                if self.m.ar.w(n.a) > 64 {
                    return None;
                }
                let (a, b) = (self.tr(n.a, s), self.tr(n.b, s));
                let d = comb(&a.a, 1.0, &b.a, -1.0);
                let (lo, hi) = self.range(&d);
                // the difference is an integer
                if hi < -0.001 {
                    Some(true)
                } else if lo > -0.999 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn cond(&mut self, c: T) -> Option<String> {
        if let Some(r) = self.b.get(&c) {
            return Some(r.clone());
        }
        let n = self.m.ar.n(c);
        let set = self.sets.get(&c).cloned();
        let r = match n.op {
            _ if set.is_some() => {
                let (l, set) = set.unwrap();
                let v = self.small_leaf(l).s;
                let mut p = vec!["false".to_string()];
                for (lo, hi) in set {
                    p.push(if lo == hi { format!("(= {} {})", v, int(lo)) } else { format!("(and (<= {} {}) (<= {} {}))", int(lo), v, v, int(hi)) });
                }
                format!("(or false {})", p.join(" "))
            }
            Op::Slt => {
                let (a, b) = (self.tr(n.a, true), self.tr(n.b, true));
                format!("(< {} {})", a.s, b.s)
            }
            Op::Ult => {
                let (a, b) = (self.tr(n.a, false), self.tr(n.b, false));
                format!("(< {} {})", a.s, b.s)
            }
            Op::Not => format!("(not {})", self.cond(n.a)?),
            Op::And | Op::Or if n.w == 1 => {
                let (a, b) = (self.cond(n.a)?, self.cond(n.b)?);
                format!("({} {} {})", if n.op == Op::And { "and" } else { "or" }, a, b)
            }
            Op::Extract if n.w == 1 && n.k as u32 == self.m.ar.w(n.a) - 1 && self.m.ar.w(n.a) > 8 => {
                let a = self.tr(n.a, true);
                format!("(< {} 0.0)", a.s)
            }
            Op::Const => (if n.k == 1 { "true" } else { "false" }).to_string(),
            Op::Ite => {
                let (x, a, b) = (self.cond(n.a)?, self.cond(n.b)?, self.cond(n.c)?);
                format!("(ite {} {} {})", x, a, b)
            }
            Op::Eq if self.m.ar.w(n.a) > 1 && self.m.ar.w(n.a) <= 64 => {
                let (a, b) = (self.tr(n.a, true), self.tr(n.b, true));
                format!("(= {} {})", a.s, b.s)
            }
            _ => {
                // any boolean: an over-approximation
                self.n += 1;
                self.abs += 1;
                let nm = format!("b{}", self.n);
                let _ = writeln!(self.out, "(declare-const {} Bool)", nm);
                nm
            }
        };
        // name it: conditions are shared
        self.n += 1;
        let nm = format!("c{}", self.n);
        let _ = writeln!(self.out, "(define-fun {} () Bool {})", nm, r);
        self.b.insert(c, nm.clone());
        Some(nm)
    }
}

fn f64arg(v: &Val) -> f64 {
    match v {
        Val::C(x) => f64::from_bits(*x),
        _ => panic!("symbolic float"),
    }
}

thread_local! {
    pub static CACHED: std::cell::Cell<u64> = Default::default();
    static ANSWERED: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default();
}
/// The same question has the same answer.
fn run_solver(txt: &str, timeout_s: u32) -> String {
    if let Some(r) = ANSWERED.with(|a| a.borrow().get(txt).cloned()) {
        CACHED.with(|c| c.set(c.get() + 1));
        return r;
    }
    let r = run_solver0(txt, timeout_s);
    if r.starts_with("unsat") || r.starts_with("sat") {
        ANSWERED.with(|a| a.borrow_mut().insert(txt.to_string(), r.clone()));
    }
    r
}
fn run_solver0(txt: &str, timeout_s: u32) -> String {
    let prog = std::env::var("LSYM_Z3_NEW").unwrap_or("z3-new".into());
    let mut c = match Command::new(prog).args(["-in", "-smt2", &format!("-T:{}", timeout_s)]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(_) => return "unknown".into(),
    };
    let mut i = c.stdin.take().unwrap();
    let t = txt.to_string();
    let h = std::thread::spawn(move || {
        let _ = i.write_all(t.as_bytes());
    });
    let out = c.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
    let _ = h.join();
    out
}

/// Arguments: value, n, xs, coefs, c0, lo, hi, tol, id
#[allow(clippy::too_many_arguments)]
fn translate(m: &mut Mach, pc: &[T], val: T, xs: &[T], cs: &[f64], c0: f64, lo: f64, hi: f64, tol: f64, mode: u32) -> (String, Vec<String>, u64, u64) {
    let n = xs.len();
    let small = small_terms(m, pc, val, xs, mode);
    {
        let mut tr = Tr {
            m,
            out: String::from("(set-option :produce-models true)\n(set-logic QF_LRA)\n"),
            s: Default::default(),
            u: Default::default(),
            b: Default::default(),
            leaf: Default::default(),
            shr: Default::default(),
            flip: Default::default(),
            rng: vec![],
            n: 0,
            noise: 0,
            abs: 0,
            small: small.leaves,
            rel: small.rel,
            small_v: Default::default(),
            sets: small.sets,
            near: small.near,
        };
        let mut xn = vec![];
        for &x in xs {
            if let Some(k) = tr.m.ar.as_const(x) {
                xn.push(int(sx(k, 32)));
            } else {
                xn.push(tr.tr(x, true).s);
            }
        }
        if std::env::var("LSYM_LINDBG").is_ok() {
            eprintln!("mode {} small {} rel {} near {} sets {}", mode, tr.small.len(), tr.rel.len(), tr.near.len(), tr.sets.len());
            for &x in xs {
                eprintln!("  x {} small {}", tr.show(x, 5), tr.small.contains_key(&x));
            }
            eprintln!("val {}", tr.show(val, std::env::var("LSYM_LINDBG").unwrap().parse().unwrap_or(4)));
        }
        let v = tr.tr(val, true);
        let v = v.s;
        let mut s = num(c0);
        for k in 0..n {
            if cs[k] != 0.0 {
                s = format!("(+ {} (* {} {}))", s, num(cs[k]), xn[k]);
            }
        }
        let z = || Aff { c: 0.0, k: vec![] };
        let id_ = tr.def(s, z()).s;
        let cl = tr.def(format!("(ite (< {} {}) {} (ite (< {} {}) {} {}))", id_, num(lo), num(lo), num(hi), id_, num(hi), id_), z()).s;
        let d = tr.def(format!("(- {} {})", v, cl), z()).s;
        let _ = writeln!(tr.out, "(assert (or (< {} {}) (> {} {})))\n(check-sat)", d, num(-tol), d, num(tol));
        let vs: Vec<String> = xn.iter().filter(|s| s.starts_with('v') || s.starts_with('r')).cloned().collect();
        if !vs.is_empty() {
            let _ = writeln!(tr.out, "(get-value ({}))", vs.join(" "));
        }
        (tr.out, xn, tr.noise, tr.abs)
    }
}
/// The violation of the bound as a condition over integers; everything is scaled by a million.
#[allow(clippy::too_many_arguments)]
fn exact(m: &mut Mach, val: T, xs: &[T], cs: &[f64], c0: f64, lo: f64, hi: f64, tol: f64) -> T {
    const S: f64 = 1e6;
    let k64 = |m: &mut Mach, v: f64| m.ar.cst(64, v.round() as i64 as u64 as u128);
    let mut s = k64(m, c0 * S);
    for (k, &x) in xs.iter().enumerate() {
        if cs[k] != 0.0 {
            let (c, x) = (k64(m, cs[k] * S), m.ar.sext(x, 64));
            let p = m.ar.mul(x, c);
            s = m.ar.add(s, p);
        }
    }
    let (l, h) = (k64(m, lo * S), k64(m, hi * S));
    let (a, b) = (m.ar.slt(s, l), m.ar.slt(h, s));
    s = m.ar.ite(a, l, s);
    s = m.ar.ite(b, h, s);
    let (v, sc) = (m.ar.sext(val, 64), k64(m, S));
    let v = m.ar.mul(v, sc);
    let d = m.ar.sub(v, s);
    let (n, p) = (k64(m, -tol * S), k64(m, tol * S));
    let (a, b) = (m.ar.slt(d, n), m.ar.slt(p, d));
    m.ar.or(a, b)
}
pub fn check_affine(m: &mut Mach, st: &mut State, a: &[Val]) -> Result<(), Stop> {
    m.lin_checks += 1;
    let n = m.conc(st, &a[1])? as usize;
    let xp = m.conc(st, &a[2])?;
    let cp = m.conc(st, &a[3])?;
    let (c0, lo, hi, tol) = (f64arg(&a[4]), f64arg(&a[5]), f64arg(&a[6]), f64arg(&a[7]));
    let id = m.conc(st, &a[8])?;
    let ti = m.m.ty(Ty::Int(32));
    let td = m.m.ty(Ty::F64);
    let mut xs: Vec<T> = vec![];
    let mut cs: Vec<f64> = vec![];
    for k in 0..n as u64 {
        let v = m.load(st, &Val::C(xp + 4 * k), ti)?;
        xs.push(m.tv(&v, 32));
        let c = m.load(st, &Val::C(cp + 8 * k), td)?;
        cs.push(f64arg(&c));
    }
    let val = m.tv(&a[0], 32);
    let holds = |m: &mut Mach, gen: u32, mv: &[u64]| -> bool {
        let v = sx(m.ar.eval(val, gen, mv), 32) as f64;
        let mut s = c0;
        for k in 0..n {
            s += cs[k] * sx(m.ar.eval(xs[k], gen, mv), 32) as f64;
        }
        (v - s.clamp(lo, hi)).abs() <= tol
    };
    let model = st.model.clone();
    if !holds(m, model.gen, &model.v) {
        m.report(st, "check", &format!("{}", id));
        return Err(Stop::Exit);
    }
    if n == 0 || m.cfg.inputs.is_some() {
        return Ok(());
    }
    let t0 = Instant::now();
    // first for arbitrary values of what the inputs are computed from
    let mut inner = vec![];
    for &x in &xs {
        let mut y = x;
        while matches!(m.ar.op(y), Op::ZExt | Op::SExt) {
            y = m.ar.n(y).a;
        }
        if !matches!(m.ar.op(y), Op::Const | Op::Var) && m.ar.w(y) < 32 {
            inner.push(y);
        }
    }
    if !inner.is_empty() {
        let mut xs2 = vec![];
        for &x in &xs {
            xs2.push(m.ar.cut_at(x, &inner).0);
        }
        let v2 = m.ar.cut_at(val, &inner).0;
        let (txt, _, noise, abst) = translate(m, &[], v2, &xs2, &cs, c0, lo, hi, tol, 0);
        m.lin.queries += 1;
        m.lin.noise += noise;
        m.lin.abstracted += abst;
        let out = run_solver(&txt, m.smt.left());
        m.lin.secs += t0.elapsed().as_secs_f64();
        if out.lines().next().unwrap_or("").trim() == "unsat" {
            m.lin.unsat += 1;
            return Ok(());
        }
        // not in the reals: exactly, in the integers
        if xs2.iter().all(|&x| m.ar.w(x) == 32) {
            let (_, mut f) = m.ar.cut_at(val, &inner);
            let c = exact(m, v2, &xs2, &cs, c0, lo, hi, tol);
            f.push(c);
            match m.smt.check(&mut m.ar, &f) {
                Res::Unsat => {
                    m.lin.unsat += 1;
                    return Ok(());
                }
                Res::Sat(vals) => {
                    let mut trial = st.clone();
                    for &y in &inner {
                        let cv = m.ar.cut_at(y, &inner).0;
                        let id = m.ar.n(cv).k as u32;
                        let Some(v) = vals.iter().find(|v| v.0 == id) else { continue };
                        let kc = m.ar.cst(m.ar.w(y), v.1 as u128);
                        let e = m.ar.eq(y, kc);
                        if e == m.ar.ff || e == m.ar.tt {
                            continue;
                        }
                        if m.eval(&trial, e) != 1 {
                            match m.query(&trial, e) {
                                Ok(Some(mm)) => trial.model = mm,
                                _ => continue,
                            }
                        }
                        m.add(&mut trial, e);
                    }
                    let mm = trial.model.clone();
                    if !holds(m, mm.gen, &mm.v) {
                        m.lin.sat += 1;
                        m.report(&trial, "check", &format!("{}", id));
                        return Err(Stop::Exit);
                    }
                }
                _ => {}
            }
        }
    }
    let mut out = String::new();
    let mut xnames = vec![];
    let mut first = String::new();
    for mode in [0, 2, 1, 3] {
        let t0 = Instant::now();
        let (txt, xn, noise, abst) = translate(m, &st.pc, val, &xs, &cs, c0, lo, hi, tol, mode);
        m.lin.queries += 1;
        m.lin.noise += noise;
        m.lin.abstracted += abst;
        let o = run_solver(&txt, m.smt.left().min(if mode == 0 { 1000 } else { 20 }));
        m.lin.secs += t0.elapsed().as_secs_f64();
        if let Ok(d) = std::env::var("LSYM_DUMP") {
            let _ = std::fs::write(format!("{}/lin-{}-{}.smt2", d, std::process::id(), m.lin.queries), &txt);
        }
        let f = o.lines().next().unwrap_or("").trim().to_string();
        if f == "unsat" {
            m.lin.unsat += 1;
            return Ok(());
        }
        if f == "sat" || first.is_empty() {
            out = o;
            xnames = xn;
            first = f;
        }
    }
    if first != "sat" {
        m.lin.inconclusive += 1;
        m.unknown_checks += 1;
        return Ok(());
    }
    m.lin.sat += 1;
    // candidates: move every x towards the value in the real model (and to its extremes)
    let vals = parse_reals(&out);
    let mut target: Vec<Option<f64>> = vec![];
    for nm in &xnames {
        target.push(vals.iter().find(|v| v.0 == *nm).map(|v| v.1));
    }
    for mode in 0..5 {
        let mut trial = st.clone();
        let mut feasible = true;
        for k in 0..n {
            if cs[k] == 0.0 && mode != 0 {
                continue;
            }
            let want = match (mode, target[k]) {
                (_, None) => continue,
                (0, Some(v)) => v.round() as i64,
                (1, Some(v)) => v.floor() as i64,
                (2, Some(v)) => v.ceil() as i64,
                (3, Some(v)) => (v.round() as i64) + 1,
                (_, Some(v)) => (v.round() as i64) - 1,
            };
            let kc = m.ar.cst(32, want as u32 as u128);
            let e = m.ar.eq(xs[k], kc);
            if e == m.ar.ff {
                continue;
            }
            if m.eval(&trial, e) == 1 {
                m.add(&mut trial, e);
                continue;
            }
            match m.query(&trial, e) {
                Ok(Some(mm)) => {
                    trial.model = mm;
                    m.add(&mut trial, e);
                }
                _ => feasible = false,
            }
        }
        let _ = feasible;
        let mm = trial.model.clone();
        if !holds(m, mm.gen, &mm.v) {
            m.report(&trial, "check", &format!("{}", id));
            return Err(Stop::Exit);
        }
    }
    // the reals forget how the x depend on each other
    if xs.len() <= 4 && xs.iter().all(|&x| m.ar.w(x) == 32) {
        let c = exact(m, val, &xs, &cs, c0, lo, hi, tol);
        match m.query(st, c) {
            Ok(None) => {
                m.lin.unsat += 1;
                return Ok(());
            }
            Ok(Some(mm)) => {
                st.model = mm;
                m.report(st, "check", &format!("{}", id));
                return Err(Stop::Exit);
            }
            Err(()) => {}
        }
    }
    m.lin.inconclusive += 1;
    m.unknown_checks += 1;
    Ok(())
}

fn parse_reals(s: &str) -> Vec<(String, f64)> {
    let cleaned = s.replace('(', " ( ").replace(')', " ) ");
    let toks: Vec<&str> = cleaned.split_whitespace().collect();
    let mut r = vec![];
    let mut i = 0;
    fn expr(t: &[&str], i: &mut usize) -> f64 {
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i];
            *i += 1;
            let mut xs = vec![];
            while t[*i] != ")" {
                xs.push(expr(t, i));
            }
            *i += 1;
            match op {
                "-" if xs.len() == 1 => -xs[0],
                "-" => xs[0] - xs[1],
                "/" => xs[0] / xs[1],
                _ => 0.0,
            }
        } else {
            let v = t[*i].trim_end_matches('?').parse().unwrap_or(0.0);
            *i += 1;
            v
        }
    }
    while i + 1 < toks.len() {
        let t = toks[i];
        if toks[i.saturating_sub(1)] == "(" && (t.starts_with('v') || t.starts_with('r')) && t[1..].chars().all(|c| c.is_ascii_digit()) && t.len() > 1 {
            i += 1;
            let v = expr(&toks, &mut i);
            r.push((t.to_string(), v));
        } else {
            i += 1;
        }
    }
    r
}
