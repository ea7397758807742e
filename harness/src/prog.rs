//! Progressive images: an encoder for coefficients whose signs and magnitude bits are symbolic.
use crate::block::weight;
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;

enum Op {
    Dc(u8),
    Ac(u8),
    Bits(u32, u32),
    Rst,
}
struct Scan {
    mask: usize,
    ss: usize,
    se: usize,
    ah: u32,
    al: u32,
}
/// A coefficient of `s` magnitude bits (DC: `s` is the category of the difference in the first scan).
struct Co {
    k: usize,
    s: u32,
    /// 1: positive
    sign: u32,
    /// magnitude bits below the leading one
    low: u32,
    /// what the scans sent so far add up to
    v: i32,
}
impl Co {
    fn mag(&self) -> u32 {
        1 << (self.s - 1) | self.low
    }
    fn signed(&self, m: u32) -> i32 {
        if self.sign == 1 {
            m as i32
        } else {
            -(m as i32)
        }
    }
}
struct Cx {
    ops: Vec<Op>,
    eobrun: u32,
    /// correction bits held back until after the end-of-band code
    held: Vec<u32>,
    held_run: Vec<u32>,
    mode: usize,
}
impl Cx {
    fn flush(&mut self) {
        if self.eobrun > 0 {
            let n = 31 - self.eobrun.leading_zeros();
            self.ops.push(Op::Ac((n as u8) << 4));
            self.ops.push(Op::Bits(self.eobrun & ((1 << n) - 1), n));
            self.eobrun = 0;
            for i in 0..self.held_run.len() {
                self.ops.push(Op::Bits(self.held_run[i], 1));
            }
            self.held_run.clear();
        }
    }
    fn end_of_band(&mut self) {
        self.eobrun += 1;
        for i in 0..self.held.len() {
            self.held_run.push(self.held[i]);
        }
        self.held.clear();
        let max = match self.mode {
            0 => 1000,
            1 => 1,
            m => m as u32,
        };
        if self.eobrun >= max {
            self.flush();
        }
    }
    fn first(&mut self, b: &mut [Co], s: &Scan) {
        let mut r = 0;
        for k in s.ss..=s.se {
            let c = b.iter_mut().find(|c| c.k == k && c.s > s.al);
            match c {
                None => r += 1,
                Some(c) => {
                    self.flush();
                    while r > 15 {
                        self.ops.push(Op::Ac(0xF0));
                        r -= 16;
                    }
                    let n = c.s - s.al;
                    self.ops.push(Op::Ac((r as u8) << 4 | n as u8));
                    let m = c.mag() >> s.al;
                    let ones = (1 << n) - 1;
                    self.ops.push(Op::Bits(if c.sign == 1 { m } else { !m & ones }, n));
                    c.v = c.signed(m << s.al);
                    r = 0;
                }
            }
        }
        if r > 0 {
            self.end_of_band();
        }
    }
    fn refine(&mut self, b: &mut [Co], s: &Scan) {
        // the last position that becomes non-zero in this scan
        let mut last = 0;
        for c in b.iter() {
            if c.k >= s.ss && c.k <= s.se && c.s == s.al + 1 && c.k > last {
                last = c.k;
            }
        }
        let mut r = 0;
        for k in s.ss..=s.se {
            match b.iter_mut().find(|c| c.k == k && c.s > s.al) {
                None => r += 1,
                Some(c) => {
                    while r > 15 && k <= last {
                        self.flush();
                        self.ops.push(Op::Ac(0xF0));
                        r -= 16;
                        self.spill();
                    }
                    if c.s > s.al + 1 {
                        let bit = (c.mag() >> s.al) & 1;
                        self.held.push(bit);
                        c.v = c.signed((c.mag() >> s.al) << s.al);
                    } else {
                        self.flush();
                        self.ops.push(Op::Ac((r as u8) << 4 | 1));
                        self.ops.push(Op::Bits(c.sign, 1));
                        c.v = c.signed(1 << s.al);
                        self.spill();
                        r = 0;
                    }
                }
            }
        }
        if r > 0 || !self.held.is_empty() {
            self.end_of_band();
        }
    }
    fn spill(&mut self) {
        for i in 0..self.held.len() {
            self.ops.push(Op::Bits(self.held[i], 1));
        }
        self.held.clear();
    }
}
fn lens(kind: usize, n: usize) -> Vec<u8> {
    let mut l = Vec::with_capacity(n);
    for i in 0..n {
        l.push(match kind {
            0 => {
                if n <= 3 {
                    2
                } else if n <= 7 {
                    3
                } else if n <= 15 {
                    4
                } else {
                    6
                }
            }
            1 => 11,
            2 => (i + 1).min(15) as u8 + (i >= 15) as u8,
            _ => 16,
        });
    }
    l
}

/// C14, C24.  params: components, sampling (two digits per component, 11 where they are missing), MCUs
/// across + 100 * (samples missing beyond three in the last column), MCUs down likewise, end-of-band mode, code lengths, restart interval, scans sent (0: all), quantizer,
/// then per scan: component mask, ss, se, ah, al; -1; then per block (component after component): k, s, ...; -1; -2
pub fn h_prog() {
    let (nc, samp, mx, my) = (pu(0), pu(1), pu(2) % 100, pu(3) % 100);
    let (cutx, cuty) = (3 + pu(2) / 100, 3 + pu(3) / 100);
    let (eobmode, kind, restart, send, q) = (pu(4), pu(5), pu(6), pu(7), pu(8) as u16);
    let mut scans = Vec::with_capacity(16);
    let mut i = 9;
    while param(i) != -1 {
        scans.push(Scan { mask: pu(i), ss: pu(i + 1), se: pu(i + 2), ah: pu(i + 3) as u32, al: pu(i + 4) as u32 });
        i += 5;
    }
    i += 1;
    let p0 = i;
    let mut f = Vec::with_capacity(4);
    let mut digits = samp;
    while digits > 0 {
        f.insert(0, (digits % 100 / 10, digits % 10));
        digits /= 100;
    }
    while f.len() < nc {
        f.push((1, 1));
    }
    let (mut sh, mut sv) = (1, 1);
    for c in 0..nc {
        sh = sh.max(f[c].0);
        sv = sv.max(f[c].1);
    }
    let mut comps = Vec::with_capacity(4);
    // per component: blocks across and down with padding, and those that cover it
    let mut dim = Vec::with_capacity(4);
    let (w, h) = if nc == 1 { (mx * 8 - cutx, my * 8 - cuty) } else { (mx * 8 * sh - cutx, my * 8 * sv - cuty) };
    for c in 0..nc {
        comps.push(Comp { id: if c < 3 { RGB[c] } else { 75 }, h: f[c].0 as u8, v: f[c].1 as u8, tq: 0 });
        if nc == 1 {
            dim.push((mx, my, mx, my));
        } else {
            let cw = cdiv(w * f[c].0, sh);
            let ch = cdiv(h * f[c].1, sv);
            dim.push((mx * f[c].0, my * f[c].1, cdiv(cw, 8), cdiv(ch, 8)));
        }
    }
    // the blocks
    let mut blocks: Vec<Vec<Vec<Co>>> = Vec::with_capacity(3);
    for c in 0..nc {
        let mut bs = Vec::with_capacity(16);
        for _ in 0..dim[c].0 * dim[c].1 {
            let mut b = Vec::with_capacity(16);
            while param(i) >= 0 {
                let (k, s) = (pu(i), pu(i + 1) as u32);
                if k > 0 && (f[c].0 < sh || f[c].1 < sv) {
                    i += 2;
                    continue;
                }
                let low = if k == 0 || s < 2 { 0 } else { u16v() as u32 & ((1 << (s - 1)) - 1) };
                b.push(Co { k, s, sign: if k == 0 { 0 } else { bit() }, low, v: 0 });
                i += 2;
            }
            i += 1;
            if param(i) == -2 {
                i = p0;
            }
            bs.push(b);
        }
        blocks.push(bs);
    }
    let mut j = Jb::new();
    j.noff = true;
    let mut qt = [q; 64];
    qt[0] = 8;
    j.dqt(0, 0, &qt);
    if restart > 0 {
        j.dri(restart as u16);
    }
    j.sof(2, 8, w as u16, h as u16, &comps);
    let n = if send == 0 { scans.len() } else { send };
    check(nc == 1 || cdiv(w, 8 * sh) == mx && cdiv(h, 8 * sv) == my, 91);
    for (si, s) in scans.iter().enumerate() {
        if si >= n {
            break;
        }
        let mut cx = Cx { ops: Vec::with_capacity(64), eobrun: 0, held: Vec::with_capacity(64), held_run: Vec::with_capacity(64), mode: eobmode };
        let mut members = Vec::with_capacity(4);
        for c in 0..nc {
            if s.mask >> c & 1 == 1 {
                members.push(c);
            }
        }
        // the order of blocks: one list of MCUs
        let mut mcus: Vec<Vec<(usize, usize)>> = Vec::with_capacity(16);
        if members.len() == 1 {
            let c = members[0];
            for y in 0..dim[c].3 {
                for x in 0..dim[c].2 {
                    mcus.push(vec![(c, y * dim[c].0 + x)]);
                }
            }
        } else {
            for y in 0..my {
                for x in 0..mx {
                    let mut m = Vec::with_capacity(8);
                    for &c in &members {
                        for v in 0..f[c].1 {
                            for u in 0..f[c].0 {
                                m.push((c, (y * f[c].1 + v) * dim[c].0 + x * f[c].0 + u));
                            }
                        }
                    }
                    mcus.push(m);
                }
            }
        }
        let mut pred = [0i32; 4];
        for (mi, m) in mcus.iter().enumerate() {
            if restart > 0 && mi > 0 && mi % restart == 0 {
                cx.flush();
                cx.ops.push(Op::Rst);
                pred = [0; 4];
            }
            for &(c, bi) in m {
                let b = &mut blocks[c][bi];
                if s.ss == 0 {
                    if s.ah == 0 {
                        let t = b.iter().find(|x| x.k == 0).map(|x| x.s).unwrap_or(0);
                        let e = u16v() as u32 & ((1 << t) - 1);
                        cx.ops.push(Op::Dc(t as u8));
                        cx.ops.push(Op::Bits(e, t));
                        pred[c] += ext(e, t);
                        let v = pred[c] << s.al;
                        match b.iter_mut().find(|x| x.k == 0) {
                            Some(x) => x.v = v,
                            None => b.push(Co { k: 0, s: 0, sign: 0, low: 0, v }),
                        }
                    } else {
                        let e = bit();
                        cx.ops.push(Op::Bits(e, 1));
                        let x = b.iter_mut().find(|x| x.k == 0).unwrap();
                        x.v |= (e << s.al) as i32;
                    }
                    if s.se == 0 {
                        continue;
                    }
                }
                if s.ah == 0 {
                    cx.first(b, s);
                } else {
                    cx.refine(b, s);
                }
            }
        }
        cx.flush();
        // the tables of this scan
        let (mut dcs, mut acs) = (Vec::with_capacity(8), Vec::with_capacity(32));
        for o in &cx.ops {
            match o {
                Op::Dc(x) if !dcs.contains(x) => dcs.push(*x),
                Op::Ac(x) if !acs.contains(x) => acs.push(*x),
                _ => {}
            }
        }
        let (td, ta) = (si % 4, (si + 1) % 4);
        let mut dt = Huff { codes: Vec::new() };
        let mut at = Huff { codes: Vec::new() };
        if !dcs.is_empty() {
            dt = j.dht_lens(0, td as u8, &lens(kind, dcs.len()), &dcs);
        }
        if s.se > 0 {
            if acs.is_empty() {
                acs.push(0);
            }
            at = j.dht_lens(1, ta as u8, &lens(kind, acs.len()), &acs);
        }
        let mut sc = Vec::with_capacity(4);
        for &c in &members {
            sc.push((comps[c].id, td as u8, ta as u8));
        }
        j.sos(&sc, s.ss as u8, s.se as u8, s.ah as u8, s.al as u8);
        let mut rn = 0;
        for o in &cx.ops {
            match *o {
                Op::Dc(x) => j.code(&dt, x),
                Op::Ac(x) => j.code(&at, x),
                Op::Bits(v, n) => j.bits(v, n),
                Op::Rst => {
                    j.rst(rn);
                    rn = (rn + 1) & 7;
                }
            }
        }
        j.align();
    }
    let v = j.end();
    let o = must(&v, 1);
    check(o.len() == w * h * nc, 2);
    // four components are taken for inverted CMYK
    let (off, dir) = if nc == 4 { (127.0, -1.0) } else { (128.0, 1.0) };
    for c in 0..nc {
        let (hs, vs) = (sh / f[c].0, sv / f[c].1);
        if hs > 1 || vs > 1 {
            // flat blocks, away from their borders; what upsampling makes of those is C10
            let n = (cdiv(w * f[c].0, sh), cdiv(h * f[c].1, sv));
            for y in 0..h {
                for x in 0..w {
                    let (xs2, ys2) = (crate::up::taps(hs, vs, true, x, n.0), crate::up::taps(hs, vs, false, y, n.1));
                    let (bx, by) = (xs2[0] / 8, ys2[0] / 8);
                    if xs2.iter().any(|t| *t / 8 != bx) || ys2.iter().any(|t| *t / 8 != by) {
                        continue;
                    }
                    let b = &blocks[c][by * dim[c].0 + bx];
                    check(b.len() <= 1, 90);
                    let v = if b.len() == 1 { b[0].v } else { 0 };
                    check_affine(o[(y * w + x) * nc + c] as i32, &[v], &[dir], off, 0.0, 255.0, 0.5, 4);
                }
            }
            continue;
        }
        for by in 0..dim[c].3 {
            for bx in 0..dim[c].2 {
                let b = &blocks[c][by * dim[c].0 + bx];
                let m = b.len();
                let mut xs = vec![0i32; m];
                let mut cs = vec![0f64; m];
                for y in 0..8 {
                    for x in 0..8 {
                        if by * 8 + y >= h || bx * 8 + x >= w {
                            continue;
                        }
                        for (n, c) in b.iter().enumerate() {
                            xs[n] = c.v;
                            cs[n] = dir * weight(8, x, y, c.k) * if c.k == 0 { 8.0 } else { q as f64 };
                        }
                        check_affine(o[((by * 8 + y) * w + bx * 8 + x) * nc + c] as i32, &xs, &cs, off, 0.0, 255.0, 1.0, 3);
                    }
                }
            }
        }
    }
    cover(1);
}
