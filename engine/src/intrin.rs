//! Intrinsics, the allocator, libc shims and the harness interface.
use crate::exec::*;
use crate::ll::*;
use crate::term::{mask64, sx64, T};
use std::rc::Rc;

macro_rules! eng {
    ($($a:tt)*) => { return Err(Stop::Engine(format!($($a)*))) };
}
type R<X> = Result<X, Stop>;

/// Names treated specially even when a body exists.
pub fn classify(name: &str, short: &str) -> Option<String> {
    if name.starts_with("llvm.") || name.starts_with("sym_") && !name.ends_with("_impl") {
        return Some(name.to_string());
    }
    for (pat, k) in [
        ("___rust_alloc_zeroed", "alloc_zeroed"),
        ("___rust_alloc_error_handler", "panic"),
        ("___rust_no_alloc_shim", "nop"),
        ("___rust_alloc", "alloc"),
        ("___rust_dealloc", "dealloc"),
        ("___rust_realloc", "realloc"),
    ] {
        if name.contains(pat) {
            return Some(k.to_string());
        }
    }
    if short.starts_with("core::panicking::") || short.starts_with("std::panicking::") || short.contains("handle_alloc_error") {
        if short.contains("panic_count") || short.ends_with("::panicking") {
            return None;
        }
        return Some("panic".into());
    }
    if short.starts_with("alloc::fmt::format::") && short.contains("format_inner") || short == "alloc::fmt::format" {
        return Some("format".into());
    }
    match name {
        "abort" | "_exit" | "exit" => Some("panic".into()),
        "memcpy" | "memmove" | "memset" | "bcmp" | "memcmp" | "strlen" | "malloc" | "calloc" | "free" | "realloc" | "posix_memalign" => Some(name.into()),
        _ => None,
    }
}

fn lanes(m: &mut Mach, st: &mut State, t: TyId, args: &[&Val], f: &mut dyn FnMut(&mut Mach, &mut State, u32, &[Val]) -> R<Val>) -> R<Val> {
    if let Ty::Vec(n, e) = m.m.tys[t as usize] {
        let w = m.m.bits(e);
        let mut out = vec![];
        for i in 0..n as usize {
            let a: Vec<Val> = args
                .iter()
                .map(|x| match x {
                    Val::A(v) => v[i].clone(),
                    v => (*v).clone(),
                })
                .collect();
            out.push(f(m, st, w, &a)?);
        }
        Ok(Val::A(Rc::new(out)))
    } else {
        let w = m.m.bits(t);
        let a: Vec<Val> = args.iter().map(|x| (*x).clone()).collect();
        f(m, st, w, &a)
    }
}

fn memcmp(m: &mut Mach, st: &mut State, a: u64, b: u64, n: u64, eq_only: bool) -> R<Val> {
    let mut eq = m.ar.tt;
    let mut pairs: Vec<(T, T)> = vec![];
    for i in 0..n {
        let x = rd8(m, st, a + i)?;
        let y = rd8(m, st, b + i)?;
        let e = m.ar.eq(x, y);
        if e == m.ar.ff && (eq == m.ar.tt || eq_only) {
            // definite difference
            if eq_only {
                return Ok(Val::C(1));
            }
            let lt = m.ar.ult(x, y);
            if let Some(k) = m.ar.as_const(lt) {
                return Ok(Val::C(if k == 1 { 0xffff_ffff } else { 1 }));
            }
        }
        eq = m.ar.and(eq, e);
        if !eq_only {
            pairs.push((x, y));
        }
    }
    if eq == m.ar.tt {
        return Ok(Val::C(0));
    }
    if eq_only {
        let ne = m.ar.not(eq);
        let r = m.ar.zext(ne, 32);
        return Ok(m.norm(r));
    }
    let mut r = m.ar.cst(32, 0);
    for (x, y) in pairs.into_iter().rev() {
        let lt = m.ar.ult(x, y);
        let e = m.ar.eq(x, y);
        let mi = m.ar.cst(32, 0xffff_ffff);
        let pl = m.ar.cst(32, 1);
        let d = m.ar.ite(lt, mi, pl);
        r = m.ar.ite(e, r, d);
    }
    Ok(m.norm(r))
}
fn rd8(m: &mut Mach, st: &mut State, a: u64) -> R<T> {
    let t = m.m.ty(Ty::Int(8));
    let v = m.load(st, &Val::C(a), t)?;
    Ok(m.tv(&v, 8))
}
/// The length of a memset.  Where an object of symbolic size is initialized with a symbolic length, what
/// lies behind the initialized part (never to be read) is written as well.
fn fill_len(m: &mut Mach, st: &mut State, d: u64, n: &Val) -> R<u64> {
    if let (Val::T(t), Ok(o)) = (n, m.obj(st, d >> 32)) {
        if o.ssz != crate::term::NONE {
            let off = d & 0xffff_ffff;
            let k = m.ar.cst(64, off as u128);
            let e = m.ar.add(*t, k);
            if e == o.ssz {
                return Ok(o.size - off);
            }
            if o.sym.is_none() && o.data[off as usize..].iter().all(|&x| x == 0xCD) {
                m.within(st, e, o.ssz)?;
                return Ok(o.size - off);
            }
        }
    }
    m.conc(st, n)
}
/// A memcpy of a symbolic length from the start of an object to that of one not yet initialized.
fn copy_all(m: &mut Mach, st: &mut State, d: u64, s: u64, n: &Val) -> R<bool> {
    if let Val::T(t) = n {
        let t = m.subst(st, *t);
        if m.ar.as_const(t).is_some() || (s | d) & 0xffff_ffff != 0 {
            return Ok(false);
        }
        let (so, eo) = (m.obj(st, s >> 32)?, m.obj(st, d >> 32)?);
        if so.ssz == crate::term::NONE || eo.ssz == crate::term::NONE || so.size != eo.size || eo.sym.is_some() || eo.data.iter().any(|&x| x != 0xCD) {
            return Ok(false);
        }
        m.within(st, t, so.ssz)?;
        m.within(st, t, eo.ssz)?;
        if !so.data.is_empty() {
            let o = m.obj_mut(st, d >> 32)?;
            o.data = so.data.clone();
            o.sym = so.sym.clone();
        }
        return Ok(true);
    }
    Ok(false)
}
fn fill(m: &mut Mach, st: &mut State, p: u64, v: &Val, n: u64) -> R<()> {
    if n == 0 {
        return Ok(());
    }
    let (id, off) = (p >> 32, p & 0xffff_ffff);
    let o = m.obj_mut(st, id)?;
    if o.ssz != crate::term::NONE && o.data.is_empty() && off + n == o.size {
        return Ok(());
    }
    if off + n > o.size {
        return Err(Stop::Violation("memory".into(), "out-of-bounds memset".into()));
    }
    if off + n > o.data.len() as u64 {
        return Err(Stop::Bound("access to a huge object".into()));
    }
    match v {
        Val::C(b) => {
            o.data[off as usize..(off + n) as usize].fill(*b as u8);
            if let Some(s) = &mut o.sym {
                s[off as usize..(off + n) as usize].fill(crate::term::NONE);
            }
        }
        Val::T(t) => {
            for i in 0..n {
                o.set_t(off + i, *t);
            }
        }
        _ => eng!("memset"),
    }
    Ok(())
}

fn fresh8(m: &mut Mach, st: &mut State) -> Val {
    if let Some(inp) = &m.cfg.inputs {
        let v = inp.get(m.input_pos).copied().unwrap_or(0);
        m.input_pos += 1;
        return Val::C(v & 0xff);
    }
    let k = st.log.len();
    let t = slot_var(m, k, 8);
    st.log.push(t);
    Val::T(t)
}
/// The k-th input of a path is the same variable on every path (paths share prefixes).
fn slot_var(m: &mut Mach, k: usize, w: u32) -> T {
    let name = format!("in{}_{}", k, w);
    if let Some(&t) = m.slots.get(&(k, w)) {
        return t;
    }
    let t = m.ar.var(w, name);
    m.slots.insert((k, w), t);
    t
}

pub fn call(m: &mut Mach, st: &mut State, name: &str, a: &[Val], tys: &[TyId], ret: TyId, dst: u32, normal: Option<u32>) -> R<Option<Val>> {
    let ok = |v: Val| -> R<Option<Val>> { Ok(Some(v)) };
    if let Some(i) = name.strip_prefix("llvm.") {
        let base: Vec<&str> = i.split('.').collect();
        match base[0] {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "pseudoprobe" | "fake" => return ok(Val::C(0)),
            "memcpy" | "memmove" => {
                let d = m.conc(st, &a[0])?;
                let s = m.conc(st, &a[1])?;
                if copy_all(m, st, d, s, &a[2])? {
                    return ok(Val::C(0));
                }
                let n = m.conc(st, &a[2])?;
                m.copy(st, d, s, n)?;
                return ok(Val::C(0));
            }
            "memset" => {
                let d = m.conc(st, &a[0])?;
                let n = fill_len(m, st, d, &a[2])?;
                fill(m, st, d, &a[1], n)?;
                return ok(Val::C(0));
            }
            "umin" | "umax" | "smin" | "smax" => {
                let k = base[0].to_string();
                let v = lanes(m, st, ret, &[&a[0], &a[1]], &mut |m, _st, w, x| {
                    let (p, q) = (m.tv(&x[0], w), m.tv(&x[1], w));
                    let r = match k.as_str() {
                        "umin" => m.ar.umin(p, q),
                        "umax" => m.ar.umax(p, q),
                        "smin" => m.ar.smin(p, q),
                        _ => m.ar.smax(p, q),
                    };
                    Ok(m.norm(r))
                })?;
                return ok(v);
            }
            "abs" => {
                let v = lanes(m, st, ret, &[&a[0]], &mut |m, _st, w, x| {
                    let p = m.tv(&x[0], w);
                    let z = m.ar.cst(w, 0);
                    let c = m.ar.slt(p, z);
                    let n = m.ar.neg(p);
                    let r = m.ar.ite(c, n, p);
                    Ok(m.norm(r))
                })?;
                return ok(v);
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let k = base[0].to_string();
                let sat = base[1] == "sat";
                let v = lanes(m, st, tys[0], &[&a[0], &a[1]], &mut |m, _st, w, x| {
                    let (p, q) = (m.tv(&x[0], w), m.tv(&x[1], w));
                    let signed = k.starts_with('s');
                    let ww = if k.ends_with("mul") { 2 * w } else { w + 1 };
                    let ar = &mut m.ar;
                    // quick path by intervals
                    let (ip, iq) = (*ar.i(p), *ar.i(q));
                    let fits = if w > 64 {
                        false
                    } else if signed {
                        let (lo, hi) = match k.as_str() {
                            "sadd" => (ip.slo as i128 + iq.slo as i128, ip.shi as i128 + iq.shi as i128),
                            "ssub" => (ip.slo as i128 - iq.shi as i128, ip.shi as i128 - iq.slo as i128),
                            _ => {
                                let c = [
                                    ip.slo as i128 * iq.slo as i128,
                                    ip.slo as i128 * iq.shi as i128,
                                    ip.shi as i128 * iq.slo as i128,
                                    ip.shi as i128 * iq.shi as i128,
                                ];
                                (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                            }
                        };
                        lo >= -(1i128 << (w - 1)) && hi < (1i128 << (w - 1))
                    } else {
                        match k.as_str() {
                            "uadd" => ip.hi as u128 + iq.hi as u128 <= mask64(w) as u128,
                            "usub" => ip.lo >= iq.hi,
                            _ => ip.hi as u128 * iq.hi as u128 <= mask64(w) as u128,
                        }
                    };
                    let lowres = match &k[1..] {
                        "add" => ar.add(p, q),
                        "sub" => ar.sub(p, q),
                        _ => ar.mul(p, q),
                    };
                    let ov = if fits {
                        ar.ff
                    } else if k == "uadd" {
                        ar.ult(lowres, p)
                    } else if k == "usub" {
                        ar.ult(p, q)
                    } else {
                        let (pe, qe) = if signed { (ar.sext(p, ww), ar.sext(q, ww)) } else { (ar.zext(p, ww), ar.zext(q, ww)) };
                        let full = match &k[1..] {
                            "add" => ar.add(pe, qe),
                            "sub" => ar.sub(pe, qe),
                            _ => ar.mul(pe, qe),
                        };
                        if signed {
                            let back = ar.sext(lowres, ww);
                            ar.ne(full, back)
                        } else {
                            let hi = ar.extract(full, w, ww - w);
                            let z = ar.cst(ww - w, 0);
                            ar.ne(hi, z)
                        }
                    };
                    if sat {
                        let r = if ov == ar.ff {
                            lowres
                        } else if signed {
                            let (pe, qe) = (ar.sext(p, ww), ar.sext(q, ww));
                            let full = match &k[1..] {
                                "add" => ar.add(pe, qe),
                                _ => ar.sub(pe, qe),
                            };
                            let mx = ar.cst(ww, (1u128 << (w - 1)) - 1);
                            let mn0 = ar.cst(w, 1u128 << (w - 1));
                            let mn = ar.sext(mn0, ww);
                            let r = ar.smin(full, mx);
                            let r = ar.smax(r, mn);
                            ar.extract(r, 0, w)
                        } else {
                            let s = if k == "usub" { ar.cst(w, 0) } else { ar.cst(w, mask64(w) as u128) };
                            ar.ite(ov, s, lowres)
                        };
                        Ok(m.norm(r))
                    } else {
                        let x = m.norm(lowres);
                        let y = m.norm(ov);
                        Ok(Val::A(Rc::new(vec![x, y])))
                    }
                })?;
                if !sat && matches!(m.m.tys[tys[0] as usize], Ty::Vec(..)) {
                    eng!("vector overflow intrinsic")
                }
                return ok(v);
            }
            "fshl" | "fshr" => {
                let l = base[0] == "fshl";
                let v = lanes(m, st, ret, &[&a[0], &a[1], &a[2]], &mut |m, st, w, x| {
                    let s = m.conc(st, &x[2])? as u32 % w;
                    let (h, lo) = (m.tv(&x[0], w), m.tv(&x[1], w));
                    let c = m.ar.concat(h, lo);
                    let r = if l { m.ar.extract(c, w - s, w) } else { m.ar.extract(c, s, w) };
                    Ok(m.norm(r))
                })?;
                return ok(v);
            }
            "ctlz" | "cttz" | "ctpop" | "bitreverse" | "bswap" => {
                let k = base[0].to_string();
                let v = lanes(m, st, ret, &[&a[0]], &mut |m, _st, w, x| {
                    if let Val::C(v) = x[0] {
                        let v = v & mask64(w);
                        let r = match k.as_str() {
                            "ctlz" => v.leading_zeros() as u64 - (64 - w as u64),
                            "cttz" => (v.trailing_zeros() as u64).min(w as u64),
                            "ctpop" => v.count_ones() as u64,
                            "bitreverse" => v.reverse_bits() >> (64 - w),
                            _ => v.swap_bytes() >> (64 - w),
                        };
                        return Ok(Val::C(r));
                    }
                    let t = m.tv(&x[0], w);
                    let ar = &mut m.ar;
                    let r = match k.as_str() {
                        "bswap" => {
                            let mut r = ar.extract(t, 0, 8);
                            for i in 1..w / 8 {
                                let b = ar.extract(t, i * 8, 8);
                                r = ar.concat(r, b);
                            }
                            r
                        }
                        "bitreverse" => {
                            let mut r = ar.extract(t, 0, 1);
                            for i in 1..w {
                                let b = ar.extract(t, i, 1);
                                r = ar.concat(r, b);
                            }
                            r
                        }
                        "ctpop" => {
                            let mut r = ar.cst(w, 0);
                            for i in 0..w {
                                let b = ar.extract(t, i, 1);
                                let b = ar.zext(b, w);
                                r = ar.add(r, b);
                            }
                            r
                        }
                        _ => {
                            let mut r = ar.cst(w, w as u128);
                            for j in 0..w {
                                // last assignment wins: go from least to most significant for ctlz
                                let (bit, val) = if k == "ctlz" { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                                let b = ar.extract(t, bit, 1);
                                let c = ar.cst(w, val as u128);
                                r = ar.ite(b, c, r);
                            }
                            r
                        }
                    };
                    Ok(m.norm(r))
                })?;
                return ok(v);
            }
            "ucmp" | "scmp" => {
                let w = m.m.bits(tys[0]);
                let rw = m.m.bits(ret);
                let (p, q) = (m.tv(&a[0], w), m.tv(&a[1], w));
                let lt = if base[0] == "ucmp" { m.ar.ult(p, q) } else { m.ar.slt(p, q) };
                let e = m.ar.eq(p, q);
                let (mi, z, pl) = (m.ar.cst(rw, u128::MAX), m.ar.cst(rw, 0), m.ar.cst(rw, 1));
                let r = m.ar.ite(lt, mi, pl);
                let r = m.ar.ite(e, z, r);
                return ok(m.norm(r));
            }
            "expect" => return ok(a[0].clone()),
            "is" => return ok(Val::C(0)),
            "threadlocal" => return ok(a[0].clone()),
            "ptrmask" => {
                let r = m.bin(st, B::And, 64, &a[0], &a[1])?;
                return ok(r);
            }
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Violation("panic".into(), "trap".into())),
            "fptoui" | "fptosi" => {
                let (wf, wt) = (m.m.bits(tys[0]), m.m.bits(ret));
                if let Some(r) = m.fx_to_int(&a[0], wf, base[0] == "fptosi", wt) {
                    return ok(r);
                }
                let x = m.conc(st, &a[0])?;
                let f = if m.m.bits(tys[0]) == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let w = m.m.bits(ret);
                let r = if base[0] == "fptoui" {
                    (f as u64).min(mask64(w))
                } else {
                    let lim = if w == 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 };
                    ((f as i64).clamp(-lim - 1, lim)) as u64 & mask64(w)
                };
                return ok(Val::C(r));
            }
            "trunc" | "floor" | "ceil" | "round" | "fabs" | "sqrt" | "rint" | "nearbyint" | "roundeven" | "minimumnum" | "maximumnum" | "minnum" | "maxnum" | "minimum" | "maximum" | "fma" | "fmuladd" | "copysign"
            | "cos" | "sin" | "exp" | "log" | "pow" => {
                let mut xs = vec![];
                let w = m.m.bits(ret);
                if let (Val::T(_), "trunc" | "floor" | "ceil") = (&a[0], base[0]) {
                    let mode = match base[0] {
                        "floor" => 0,
                        "ceil" => 1,
                        _ => 2,
                    };
                    if let Some((n, b)) = m.fx_round(&a[0], w, mode) {
                        if let Some(r) = m.fx_make(n, 0, b, w) {
                            return ok(r);
                        }
                    }
                }
                for v in a {
                    let x = m.conc(st, v)?;
                    xs.push(if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) });
                }
                let f = match base[0] {
                    "trunc" => xs[0].trunc(),
                    "floor" => xs[0].floor(),
                    "ceil" => xs[0].ceil(),
                    "round" => xs[0].round(),
                    "fabs" => xs[0].abs(),
                    "sqrt" => xs[0].sqrt(),
                    "cos" => xs[0].cos(),
                    "sin" => xs[0].sin(),
                    "exp" => xs[0].exp(),
                    "log" => xs[0].ln(),
                    "pow" => xs[0].powf(xs[1]),
                    "copysign" => xs[0].copysign(xs[1]),
                    "fma" | "fmuladd" if w == 64 => xs[0] * xs[1] + xs[2],
                    "minimumnum" | "minnum" | "minimum" => xs[0].min(xs[1]),
                    "maximumnum" | "maxnum" | "maximum" => xs[0].max(xs[1]),
                    _ => eng!("float intrinsic {}", name),
                };
                let r = if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() };
                return ok(Val::C(r));
            }
            "vector" if base[1] == "reduce" => {
                let (e, els) = match (&m.m.tys[tys[0] as usize], &a[0]) {
                    (Ty::Vec(_, e), Val::A(x)) => (*e, x.clone()),
                    _ => eng!("reduce"),
                };
                let w = m.m.bits(e);
                let mut r = m.tv(&els[0], w);
                for v in els[1..].iter() {
                    let y = m.tv(v, w);
                    r = match base[2] {
                        "or" => m.ar.or(r, y),
                        "and" => m.ar.and(r, y),
                        "add" => m.ar.add(r, y),
                        "xor" => m.ar.xor(r, y),
                        "umax" => m.ar.umax(r, y),
                        "smax" => m.ar.smax(r, y),
                        "umin" => m.ar.umin(r, y),
                        "smin" => m.ar.smin(r, y),
                        _ => eng!("{}", name),
                    };
                }
                return ok(m.norm(r));
            }
            "x86" => return x86(m, st, &base, a, tys, ret).map(Some),
            _ => eng!("intrinsic {}", name),
        }
    }
    match name {
        "nop" => ok(Val::C(0)),
        "alloc" => {
            ok(Val::C(m.alloc_val(st, &a[0], 0xCD)?))
        }
        "alloc_zeroed" => {
            ok(Val::C(m.alloc_val(st, &a[0], 0)?))
        }
        "dealloc" => {
            let p = m.conc(st, &a[0])?;
            m.free(st, p)?;
            ok(Val::C(0))
        }
        "realloc" => {
            // (ptr, old size, align, new size)
            let p = m.conc(st, &a[0])?;
            let old = m.conc(st, &a[1])?;
            let n = m.conc(st, &a[3])?;
            let q = m.alloc(st, n, 0xCD)?;
            m.copy(st, q, p, old.min(n))?;
            m.free(st, p)?;
            ok(Val::C(q))
        }
        "malloc" => {
            let n = m.conc(st, &a[0])?;
            ok(Val::C(m.alloc(st, n, 0xCD)?))
        }
        "calloc" => {
            let n = m.conc(st, &a[0])?;
            let k = m.conc(st, &a[1])?;
            ok(Val::C(m.alloc(st, n * k, 0)?))
        }
        "free" => {
            let p = m.conc(st, &a[0])?;
            m.free(st, p)?;
            ok(Val::C(0))
        }
        "memcpy" | "memmove" => {
            let d = m.conc(st, &a[0])?;
            let s = m.conc(st, &a[1])?;
            if copy_all(m, st, d, s, &a[2])? {
                return ok(Val::C(d));
            }
            let n = m.conc(st, &a[2])?;
            m.copy(st, d, s, n)?;
            ok(Val::C(d))
        }
        "memset" => {
            let d = m.conc(st, &a[0])?;
            let n = fill_len(m, st, d, &a[2])?;
            let v = match &a[1] {
                Val::C(x) => Val::C(x & 255),
                Val::T(t) => {
                    let x = m.ar.extract(*t, 0, 8);
                    m.norm(x)
                }
                v => v.clone(),
            };
            fill(m, st, d, &v, n)?;
            ok(Val::C(d))
        }
        "bcmp" | "memcmp" => {
            let p = m.conc(st, &a[0])?;
            let q = m.conc(st, &a[1])?;
            let n = m.conc(st, &a[2])?;
            ok(memcmp(m, st, p, q, n, name == "bcmp")?)
        }
        "format" => {
            // the text of an error message is not observed by any property: an empty String
            let s = match m.m.symmap.get("h_empty_string") {
                Some(&s) => s,
                None => eng!("h_empty_string missing"),
            };
            m.call_sym(st, s, vec![a[0].clone()], dst, normal)?;
            Ok(None)
        }
        // ---- harness interface ----
        "sym_bytes" => {
            let p = m.conc(st, &a[0])?;
            let n = m.conc(st, &a[1])?;
            let t = m.m.ty(Ty::Int(8));
            for i in 0..n {
                let v = fresh8(m, st);
                m.store(st, &Val::C(p + i), t, &v)?;
            }
            ok(Val::C(0))
        }
        "sym_choice" => {
            // a value in 0..n, one path per value
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            let n = m.conc(st, &a[0])?;
            if let Some(inp) = &m.cfg.inputs {
                let v = inp.get(m.input_pos).copied().unwrap_or(0);
                m.input_pos += 1;
                return ok(Val::C(v));
            }
            if n <= 1 {
                // still an input slot, so that the log has a fixed shape
                let t = slot_var(m, st.log.len(), 32);
                st.log.push(t);
                let z = m.ar.cst(32, 0);
                let c = m.ar.eq(t, z);
                m.assume(st, c)?;
                return ok(Val::C(0));
            }
            // the state re-executes this call for other values, so the variable is found again
            let k = st.log.len();
            let t = slot_var(m, k, 32);
            let lim = m.ar.cst(32, n as u128);
            let c = m.ar.ult(t, lim);
            m.assume(st, c)?;
            let v = m.concretize(st, t)?;
            st.log.push(t);
            ok(Val::C(v))
        }
        "sym_assume" => {
            let t = m.tv(&a[0], m.m.bits(tys[0]));
            let c = if m.ar.w(t) == 1 {
                t
            } else {
                let z = m.ar.cst(m.ar.w(t), 0);
                m.ar.ne(t, z)
            };
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            m.assume(st, c)?;
            ok(Val::C(0))
        }
        "sym_check" => {
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            let t = m.tv(&a[0], m.m.bits(tys[0]));
            let c = if m.ar.w(t) == 1 {
                t
            } else {
                let z = m.ar.cst(m.ar.w(t), 0);
                m.ar.ne(t, z)
            };
            let id = m.conc(st, &a[1])?;
            m.check(st, c, "check", &format!("{}", id))?;
            ok(Val::C(0))
        }
        "sym_check_eq" => {
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            let p = m.conc(st, &a[0])?;
            let q = m.conc(st, &a[1])?;
            let n = m.conc(st, &a[2])?;
            let id = m.conc(st, &a[3])?;
            // grouped per 8 bytes to keep the queries small
            let mut i = 0;
            while i < n {
                let mut c = m.ar.tt;
                let e = (i + 1).min(n);
                for j in i..e {
                    let x = rd8(m, st, p + j)?;
                    let y = rd8(m, st, q + j)?;
                    let eq = m.ar.eq(x, y);
                    c = m.ar.and(c, eq);
                }
                m.check(st, c, "check", &format!("{}", id))?;
                i = e;
            }
            ok(Val::C(0))
        }
        "sym_check_cut" => {
            // condition, pointer to bytes to generalize over, count, id
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            let t = m.tv(&a[0], m.m.bits(tys[0]));
            let c = if m.ar.w(t) == 1 {
                t
            } else {
                let z = m.ar.cst(m.ar.w(t), 0);
                m.ar.ne(t, z)
            };
            let p = m.conc(st, &a[1])?;
            let n = m.conc(st, &a[2])?;
            let id = m.conc(st, &a[3])?;
            let mut cuts = vec![];
            for j in 0..n {
                cuts.push(rd8(m, st, p + j)?);
            }
            if m.ar.as_const(c).is_none() && m.cfg.inputs.is_none() {
                let (k, mut f) = m.ar.cut_at(c, &cuts);
                let nk = m.ar.not(k);
                f.push(nk);
                if nk == m.ar.ff {
                    m.checks += 1;
                    m.checks_trivial += 1;
                    return ok(Val::C(0));
                }
                if nk != m.ar.tt {
                    if let crate::smt::Res::Unsat = m.smt.check(&mut m.ar, &f) {
                        m.checks += 1;
                        return ok(Val::C(0));
                    }
                }
            }
            m.check(st, c, "check", &format!("{}", id))?;
            ok(Val::C(0))
        }
        "sym_check_affine" => {
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            crate::lin::check_affine(m, st, a)?;
            ok(Val::C(0))
        }
        "sym_cover" => {
            if st.spec > 0 {
                return Err(Stop::Merge);
            }
            let id = m.conc(st, &a[0])? as u32;
            *m.covers.entry(id).or_default() += 1;
            ok(Val::C(0))
        }
        "sym_param" => {
            let i = m.conc(st, &a[0])? as usize;
            ok(Val::C(m.cfg.params.get(i).copied().unwrap_or(0) as u64))
        }
        "sym_concretize" => {
            let v = m.conc(st, &a[0])?;
            ok(Val::C(v))
        }
        "sym_emit" => {
            if m.cfg.inputs.is_some() {
                let v = m.conc(st, &a[0])?;
                m.outputs.push(v);
            }
            ok(Val::C(0))
        }
        "sym_is_engine" => ok(Val::C(1)),
        _ => eng!("external function {}", name),
    }
}

fn vec_of(v: &Val) -> &Vec<Val> {
    match v {
        Val::A(x) => x,
        _ => panic!("vector expected"),
    }
}

fn x86(m: &mut Mach, st: &mut State, base: &[&str], a: &[Val], tys: &[TyId], ret: TyId) -> R<Val> {
    let nm = base[1..].join(".");
    match nm.as_str() {
        "sse2.pause" => Ok(Val::C(0)),
        "ssse3.pmul.hr.sw.128" => {
            let (x, y) = (vec_of(&a[0]).clone(), vec_of(&a[1]).clone());
            let mut out = vec![];
            for i in 0..8 {
                let (p, q) = (m.tv(&x[i], 16), m.tv(&y[i], 16));
                let ar = &mut m.ar;
                let (p, q) = (ar.sext(p, 32), ar.sext(q, 32));
                let r = ar.mul(p, q);
                let k = ar.cst(32, 0x4000);
                let r = ar.add(r, k);
                let r = ar.extract(r, 15, 16);
                out.push(m.norm(r));
            }
            Ok(Val::A(Rc::new(out)))
        }
        "sse2.packuswb.128" | "sse2.packsswb.128" => {
            let mut out = vec![];
            for v in [&a[0], &a[1]] {
                for e in vec_of(v).clone().iter() {
                    let p = m.tv(e, 16);
                    let ar = &mut m.ar;
                    let (lo, hi) = if nm.contains("packus") { (ar.cst(16, 0), ar.cst(16, 255)) } else { (ar.cst(16, 0xff80), ar.cst(16, 127)) };
                    let r = ar.smax(p, lo);
                    let r = ar.smin(r, hi);
                    let r = ar.extract(r, 0, 8);
                    out.push(m.norm(r));
                }
            }
            Ok(Val::A(Rc::new(out)))
        }
        "sse2.packssdw.128" => {
            let mut out = vec![];
            for v in [&a[0], &a[1]] {
                for e in vec_of(v).clone().iter() {
                    let p = m.tv(e, 32);
                    let ar = &mut m.ar;
                    let (lo, hi) = (ar.cst(32, 0xffff8000), ar.cst(32, 32767));
                    let r = ar.smax(p, lo);
                    let r = ar.smin(r, hi);
                    let r = ar.extract(r, 0, 16);
                    out.push(m.norm(r));
                }
            }
            Ok(Val::A(Rc::new(out)))
        }
        "ssse3.pshuf.b.128" => {
            let (x, y) = (vec_of(&a[0]).clone(), vec_of(&a[1]).clone());
            let mut out = vec![];
            for i in 0..16 {
                let k = m.conc(st, &y[i])?;
                out.push(if k & 0x80 != 0 { Val::C(0) } else { x[(k & 15) as usize].clone() });
            }
            Ok(Val::A(Rc::new(out)))
        }
        "sse2.pmulh.w" | "sse2.pmadd.wd" => {
            let (x, y) = (vec_of(&a[0]).clone(), vec_of(&a[1]).clone());
            let mut out = vec![];
            if nm == "sse2.pmulh.w" {
                for i in 0..8 {
                    let (p, q) = (m.tv(&x[i], 16), m.tv(&y[i], 16));
                    let (p, q) = (m.ar.sext(p, 32), m.ar.sext(q, 32));
                    let r = m.ar.mul(p, q);
                    let r = m.ar.extract(r, 16, 16);
                    out.push(m.norm(r));
                }
            } else {
                for i in 0..4 {
                    let mut acc = m.ar.cst(32, 0);
                    for k in 0..2 {
                        let (p, q) = (m.tv(&x[2 * i + k], 16), m.tv(&y[2 * i + k], 16));
                        let (p, q) = (m.ar.sext(p, 32), m.ar.sext(q, 32));
                        let r = m.ar.mul(p, q);
                        acc = m.ar.add(acc, r);
                    }
                    out.push(m.norm(acc));
                }
            }
            Ok(Val::A(Rc::new(out)))
        }
        "sse2.pmovmskb.128" => {
            let x = vec_of(&a[0]).clone();
            let mut r = m.ar.ff;
            for i in 0..16 {
                let p = m.tv(&x[i], 8);
                let b = m.ar.extract(p, 7, 1);
                r = if i == 0 { b } else { m.ar.concat(b, r) };
            }
            let w = m.m.bits(ret);
            let r = m.ar.zext(r, w);
            let _ = (tys, sx64(0, 1));
            Ok(m.norm(r))
        }
        _ => Err(Stop::Engine(format!("x86 intrinsic {}", nm))),
    }
}
