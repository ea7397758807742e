//! Blocks: entropy decoding, dequantization, inverse DCT.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use crate::dct_basis;
use jpeg_decoder::Decoder;

/// The weight of the coefficient at zigzag position `k` in the sample (x, y) of a block rendered
/// with `n` x `n` samples.
pub fn weight(n: usize, x: usize, y: usize, k: usize) -> f64 {
    let z = ZIGZAG[k];
    let (v, u) = (z / 8, z % 8);
    if v >= n || u >= n {
        0.0
    } else {
        dct_basis(n, x, u) * dct_basis(n, y, v) / 4.0
    }
}
/// Decodes at `n`/8 of the size.
pub fn at_scale(v: &[u8], n: usize, w: usize, h: usize) -> Vec<u8> {
    if n == 8 {
        must(v, 1)
    } else {
        let (ow, oh) = (cdiv(w * n, 8), cdiv(h * n, 8));
        must_scaled(v, ow as u16, oh as u16, ow, oh, 1)
    }
}

/// C08.  params: pixel, mask of the AC products, mask of the DC product, tolerance / 1000, scale,
/// first and last AC position that is not zero, mode (0: coefficients of magnitude 1 and symbolic
/// quantizers, 1: symbolic coefficients of 5 bits and quantizer `mask`)
pub fn h_idct() {
    let pix = pu(0);
    let (maxq, maxdc) = (pu(1) as u16, pu(2) as u16);
    let tol = param(3) as f64 / 1000.0;
    let n = if pu(4) == 0 { 8 } else { pu(4) };
    let (k0, k1) = if pu(6) == 0 { (1, 63) } else { (pu(5), pu(6)) };
    let mode = pu(7);
    let mut j = Jb::new();
    let mut q = [1u16; 64];
    for k in 0..64 {
        if mode == 1 {
            q[k] = if k == 0 { maxdc } else { maxq };
        } else if k == 0 || (k >= k0 && k <= k1) {
            q[k] = u16v() & if k == 0 { maxdc } else { maxq };
            assume(q[k] != 0);
        }
    }
    j.dqt(0, 1, &q);
    j.sof(0, 8, 8, 8, &[c11(1)]);
    // a block of magnitude-1 coefficients uses codes longer than the look-up table
    let cat = if mode == 1 { 5 } else { 1 };
    let dc = j.dht_lens(0, 0, &[1], &[cat]);
    let ac = j.dht_lens(1, 0, &[2, 2, 11, 12], &[0x00, 0xF0, cat, cat | 0x10]);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    let mut val = [0i32; 64];
    let mut one = |j: &mut Jb| {
        let b = byte() as u32 & ((1 << cat) - 1);
        j.bits(b, cat as u32);
        ext(b, cat as u32)
    };
    j.code(&dc, cat);
    val[0] = one(&mut j);
    let mut k = 1;
    // zeros up to the first one
    let mut gap = k0 - 1;
    while gap >= 16 {
        j.code(&ac, 0xF0);
        gap -= 16;
        k += 16;
    }
    if gap > 0 {
        // runs of one zero only: the skipped positions before k0 get coefficients as well
        while k < k0 && (k0 - k) % 2 == 0 {
            j.code(&ac, cat | 0x10);
            k += 1;
            val[k] = one(&mut j);
            k += 1;
        }
    }
    while k <= k1 {
        j.code(&ac, cat);
        val[k] = one(&mut j);
        k += 1;
    }
    if k < 64 {
        j.code(&ac, 0);
    }
    let v = j.end();
    let p = at_scale(&v, n, 8, 8);
    check(p.len() == n * n, 2);
    let mut xs = [0i32; 64];
    let mut cs = [0f64; 64];
    for k in 0..64 {
        let qq = q[k] as i32;
        if mode == 1 {
            xs[k] = val[k];
            cs[k] = weight(n, pix % n, pix / n, k) * q[k] as f64;
        } else {
            xs[k] = if val[k] == 0 { 0 } else if val[k] > 0 { qq } else { -qq };
            cs[k] = weight(n, pix % n, pix / n, k);
        }
    }
    check_affine(p[pix] as i32, &xs, &cs, 128.0, 0.0, 255.0, tol, 3);
    cover(1);
}

/// C07.  params: table kind, quantizer of the AC coefficients, then per block: DC category, AC symbols
/// (run * 16 + size, 240: ZRL, 0: EOB), closed by -1
pub fn h_block() {
    let (kind, q) = (pu(0), pu(1) as u16);
    let mut prog: Vec<i64> = Vec::with_capacity(64);
    let mut i = 2;
    loop {
        let x = param(i);
        // the list ends with -2
        if x == -2 {
            break;
        }
        prog.push(x);
        i += 1;
    }
    let mut blocks = 0;
    let mut dcs: Vec<u8> = Vec::with_capacity(16);
    let mut acs: Vec<u8> = Vec::with_capacity(64);
    let mut first = true;
    for &x in &prog {
        if x == -1 {
            blocks += 1;
            first = true;
            continue;
        }
        let l = if first { &mut dcs } else { &mut acs };
        if !l.contains(&(x as u8)) {
            l.push(x as u8);
        }
        first = false;
    }
    if acs.is_empty() {
        acs.push(0);
    }
    let mut j = Jb::new();
    j.noff = true;
    let mut qt = [q; 64];
    qt[0] = 16;
    j.dqt(0, if q > 255 { 1 } else { 0 }, &qt);
    j.sof(if q > 255 { 1 } else { 0 }, 8, 8 * blocks as u16, 8, &[c11(1)]);
    let lens = |n: usize| -> Vec<u8> {
        let mut l = Vec::with_capacity(n);
        for i in 0..n {
            l.push(match kind {
                // short codes of equal length
                0 => if n <= 3 { 2 } else if n <= 7 { 3 } else { 5 },
                // long ones
                1 => if n <= 15 { 12 } else { 14 },
                // the longest
                2 => 16,
                // growing by one: both sides of the look-up
                3 => (i + 1).min(15) as u8 + (i >= 15) as u8,
                4 => (i + 5).min(15) as u8 + (i >= 15) as u8,
                // exactly 8, then 9
                _ => if i < 3 { 8 } else { 9 },
            });
        }
        l
    };
    let dt = j.dht_lens(0, 0, &lens(dcs.len()), &dcs);
    let at = j.dht_lens(1, 0, &lens(acs.len()), &acs);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    let mut co: Vec<Vec<(usize, i32)>> = Vec::with_capacity(4);
    let mut pred = 0i32;
    let mut k = 0;
    let mut cur: Vec<(usize, i32)> = Vec::with_capacity(64);
    for &x in &prog {
        if x == -1 {
            let l = cur.len();
            co.push(core::mem::replace(&mut cur, Vec::with_capacity(l + 1)));
            k = 0;
            continue;
        }
        let sym = x as u8;
        j.code(if k == 0 { &dt } else { &at }, sym);
        let s = (sym & 15) as u32;
        let b = if s == 0 { 0 } else { u16v() as u32 & ((1 << s) - 1) };
        j.bits(b, s);
        if k == 0 {
            pred += ext(b, s);
            cur.push((0, pred));
            k = 1;
        } else if s == 0 {
            k += if sym == 0xF0 { 16 } else { 0 };
        } else {
            k += (sym >> 4) as usize;
            cur.push((k, ext(b, s)));
            k += 1;
        }
    }
    let v = j.end();
    let out = must(&v, 1);
    check(out.len() == 64 * blocks, 2);
    for b in 0..blocks {
        let n = co[b].len();
        let mut xs = vec![0i32; n];
        let mut cs = vec![0f64; n];
        for p in 0..64 {
            for (m, c) in co[b].iter().enumerate() {
                xs[m] = c.1;
                cs[m] = weight(8, p % 8, p / 8, c.0) * if c.0 == 0 { 16.0 } else { q as f64 };
            }
            check_affine(out[(p / 8) * 8 * blocks + 8 * b + p % 8] as i32, &xs, &cs, 128.0, 0.0, 255.0, 1.0, 3);
        }
    }
    cover(1);
}
/// C07: illegal blocks are errors.  params: kind
pub fn h_badblock() {
    let kind = pu(0);
    let mut j = Jb::new();
    j.noff = true;
    j.dqt_flat(0, 8);
    j.sof(0, 8, 8, 8, &[c11(1)]);
    let s = byte();
    let (r, z) = (s >> 4, s & 15);
    let dt = j.dht_lens(0, 0, &[1, 2], &[0, if kind == 0 { s } else { 1 }]);
    let at = j.dht_lens(1, 0, &[1, 2, 3, 4], &[0, if kind == 0 { 1 } else { s }, 0xF0, 0x11]);
    let _ = &at;
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    match kind {
        0 => {
            // a DC category above 11
            assume(s > 11);
            j.bits(dt.codes[1].1, dt.codes[1].2);
            j.bits(0, 32);
        }
        _ => {
            // runs beyond the end of the block
            let pre = 3;
            j.code(&dt, 0);
            for _ in 0..pre {
                j.bits(at.codes[2].1, at.codes[2].2);
            }
            // 48 coefficients are passed: k = 49
            assume(z > 0 && 49 + r as u32 > 63);
            j.bits(at.codes[1].1, at.codes[1].2);
            j.bits(0, 32);
        }
    }
    let v = j.end();
    check(dec(&v).is_err(), 1);
    cover(1);
}
/// C07: the DC prediction is per component and accumulates over blocks, whatever the differences.
/// params: number of blocks, category
pub fn h_dcwrap() {
    let (n, cat) = (pu(0), pu(1) as u32);
    let mut j = Jb::new();
    j.noff = true;
    j.dqt_flat(0, 8);
    j.sof(0, 8, 8 * n as u16, 8, &[c11(1)]);
    let dt = j.dht_lens(0, 0, &[1, 2], &[cat as u8, 0]);
    let at = j.dht_lens(1, 0, &[1], &[0]);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    let mut pred = 0i32;
    let mut want = Vec::with_capacity(n);
    for _ in 0..n {
        let b = u16v() as u32 & ((1 << cat) - 1);
        j.code(&dt, cat as u8);
        j.bits(b, cat);
        j.code(&at, 0);
        pred += ext(b, cat);
        // predictions outside the legal range are left out
        assume(pred > -2048 && pred < 2048);
        want.push(clamp8(pred + 128));
    }
    let v = j.end();
    let o = must(&v, 1);
    check(o.len() == 64 * n, 2);
    for y in 0..8 {
        for x in 0..8 * n {
            check_eq(&o[y * 8 * n + x..][..1], &want[x / 8..][..1], 3);
        }
    }
    cover(1);
}

/// C09: the quantizer at one position, in 8 or 16 bits, scales that coefficient and nothing else.
/// params: zigzag position, precision (0 or 1), coefficient (1 or -1), table destination
pub fn h_qtable() {
    let (k, prec, neg, tq) = (pu(0), pu(1), pu(2), pu(3));
    let mut q = [0u16; 64];
    for x in q.iter_mut() {
        *x = if prec == 1 { u16v() & 0x7FF } else { byte() as u16 };
        assume(*x != 0);
    }
    let mut j = Jb::new();
    j.dqt(tq as u8, prec as u8, &q);
    j.sof(1, 8, 8, 8, &[Comp { id: 1, h: 1, v: 1, tq: tq as u8 }]);
    let dt = j.dht_lens(0, 0, &[1, 2], &[0, 1]);
    let run = if k == 0 { 0 } else { (k - 1) % 16 };
    let at = j.dht_lens(1, 0, &[1, 2, 3], &[0, 0xF0, (run as u8) << 4 | 1]);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    if k == 0 {
        j.code(&dt, 1);
        j.bits(1 - neg as u32, 1);
    } else {
        j.code(&dt, 0);
        for _ in 0..(k - 1) / 16 {
            j.code(&at, 0xF0);
        }
        j.code(&at, (run as u8) << 4 | 1);
        j.bits(1 - neg as u32, 1);
    }
    if k < 63 {
        j.code(&at, 0);
    }
    let v = j.end();
    let o = must(&v, 1);
    check(o.len() == 64, 2);
    let s = if neg == 1 { -1.0 } else { 1.0 };
    for p in 0..64 {
        check_affine(o[p] as i32, &[q[k] as i32], &[s * weight(8, p % 8, p / 8, k)], 128.0, 0.0, 255.0, 1.5, 3);
    }
    cover(1);
}
/// C09: which definition a component uses.  params: way of defining
pub fn h_qdef() {
    let way = pu(0);
    // DC quantizers: a, b, c for the three components, and decoys
    let mut qv = [0u16; 6];
    for x in qv.iter_mut() {
        *x = (byte() | 1) as u16;
    }
    let mut j = Jb::new();
    let t = |q: u16| {
        let mut t = [3u16; 64];
        t[0] = q;
        t
    };
    let comps = [Comp { id: 82, h: 1, v: 1, tq: 0 }, Comp { id: 71, h: 1, v: 1, tq: if way == 4 { 0 } else { 2 } }, Comp { id: 66, h: 1, v: 1, tq: if way == 4 { 0 } else { 3 } }];
    let many = |j: &mut Jb, l: &[(u8, u8, u16)]| {
        let mut p = Vec::with_capacity(400);
        for &(id, prec, q) in l {
            p.push(prec << 4 | id);
            for x in t(q) {
                if prec == 1 {
                    p.push((x >> 8) as u8);
                }
                p.push(x as u8);
            }
        }
        j.seg(0xDB, &p);
    };
    let mut use_ = [qv[0], qv[1], qv[2]];
    match way {
        // one segment, mixed precisions, any order
        0 => many(&mut j, &[(3, 0, qv[2]), (0, 1, qv[0]), (2, 0, qv[1])]),
        1 => many(&mut j, &[(2, 1, qv[1]), (3, 1, qv[2]), (1, 0, qv[3]), (0, 0, qv[0])]),
        // redefined before the frame and again before the scan
        2 | 3 | 4 => {
            j.dqt(0, 0, &t(qv[3]));
            j.dqt(2, 1, &t(qv[4]));
            j.dqt(3, 0, &t(qv[5]));
            if way == 2 {
                many(&mut j, &[(0, 0, qv[0]), (2, 1, qv[1]), (3, 0, qv[2])]);
            }
        }
        // redefined within one segment
        _ => many(&mut j, &[(0, 0, qv[3]), (2, 0, qv[4]), (3, 1, qv[5]), (2, 0, qv[1]), (0, 1, qv[0]), (3, 0, qv[2])]),
    }
    j.sof(1, 8, 8, 8, &comps);
    if way == 3 {
        many(&mut j, &[(3, 0, qv[2]), (0, 1, qv[0])]);
        many(&mut j, &[(2, 0, qv[1])]);
    }
    let dt = j.dht_lens(0, 0, &[1], &[3]);
    let at = j.dht_lens(1, 0, &[1], &[0]);
    let mut val = [0i32; 3];
    let mut blk = |j: &mut Jb, c: usize| {
        let b = byte() as u32 & 7;
        j.code(&dt, 3);
        j.bits(b, 3);
        j.code(&at, 0);
        val[c] = ext(b, 3);
    };
    if way == 4 {
        // the same destination, redefined between the scans of the components
        let order = [1, 0, 2];
        for (i, &c) in order.iter().enumerate() {
            if i > 0 || c == 1 {
                j.dqt(0, 0, &t(qv[i]));
            }
            use_[c] = qv[i];
            j.sos(&[(comps[c].id, 0, 0)], 0, 63, 0, 0);
            blk(&mut j, c);
            j.align();
        }
    } else {
        j.sos(&[(82, 0, 0), (71, 0, 0), (66, 0, 0)], 0, 63, 0, 0);
        for c in 0..3 {
            blk(&mut j, c);
        }
    }
    let v = j.end();
    let o = must(&v, 1);
    check(o.len() == 192, 2);
    for c in 0..3 {
        // val is one of 8 known values: the product is the sample
        let x = val[c] * use_[c] as i32;
        for p in 0..64 {
            check_over((o[3 * p + c] as i32 - clamp8i(x)).abs() <= 1, &[], 3);
        }
    }
    cover(1);
}
fn clamp8i(x: i32) -> i32 {
    // x / 8 rounded, shifted and clamped
    (((x + 4) >> 3) + 128).clamp(0, 255)
}
/// C09: malformed definitions are errors.  params: kind
pub fn h_qbad() {
    let kind = pu(0);
    let mut j = Jb::new();
    let mut ok = true;
    let mut comp = c11(1);
    match kind {
        0 | 1 => {
            // any precision / destination byte, any single entry
            let pt = byte();
            let (pq, tq) = (pt >> 4, pt & 15);
            let k = choice(64);
            let mut q = [5u16; 64];
            q[k] = u16v();
            if kind == 0 {
                q[k] &= 0xFF;
            }
            let mut p = Vec::with_capacity(130);
            p.push(pt);
            for x in q {
                if kind == 1 {
                    p.push((x >> 8) as u8);
                }
                p.push(x as u8);
            }
            j.seg(0xDB, &p);
            // the payload length matches the precision of this kind only
            ok = pq as usize == kind && tq < 4 && q[k] != 0;
            if tq != 0 {
                j.dqt_flat(0, 8);
            }
        }
        2 => {
            // lengths around the right one
            let n = choice(140);
            let p = vec![0x00u8; 1];
            let mut p = p;
            for _ in 0..n {
                p.push(9);
            }
            j.seg(0xDB, &p);
            // 64 entries; 65 further bytes would be a table of precision 0 for destination 9
            ok = n == 64;
        }
        _ => {
            // a table that was never defined
            let tq = byte();
            comp.tq = tq;
            j.dqt_flat(1, 8);
            j.dqt_flat(3, 8);
            ok = ok && (tq == 1 || tq == 3);
        }
    }
    j.sof(1, 8, 8, 8, &[comp]);
    let t = flat_tables(&mut j);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    flat_block(&mut j, &t, 0);
    let v = j.end();
    let r = Decoder::new(&v[..]).decode().is_ok();
    check(r == ok, 1);
    if r {
        cover(1);
    } else {
        cover(2);
    }
}

/// C07: two coefficients at any two positions: the run codes lead there.  The same block in a progressive picture, each
/// coefficient in a scan of its own without runs, gives the same samples.
/// params: first position of the first coefficient, number of cases, sizes, code lengths
pub fn h_pairs() {
    let a = pu(0) + choice(pu(1));
    let b = a + 1 + choice(63 - a);
    let (s1, s2) = (pu(2) as u8, pu(3) as u8);
    let lens: [u8; 4] = if pu(4) == 0 { [2, 2, 3, 4] } else { [7, 8, 9, 16] };
    // the joined look-up makes the samples hard to compare: two cases of values there
    let (x1, x2) = match (pu(4), choice(if pu(4) == 0 { 2 } else { 1 })) {
        (0, 0) => (1, (1 << s2) - 1),
        (0, _) => ((1 << s1) - 2, 0),
        _ => (u16v() as u32 & ((1 << s1) - 1), u16v() as u32 & ((1 << s2) - 1)),
    };
    let mut j = Jb::new();
    j.noff = true;
    j.dqt_flat(0, 8);
    j.sof(0, 8, 8, 8, &[c11(1)]);
    let (r1, r2) = (a - 1, b - a - 1);
    let (y1, y2) = ((r1 as u8 % 16) << 4 | s1, (r2 as u8 % 16) << 4 | s2);
    let mut syms = vec![0xF0, 0, y1];
    if y2 != y1 {
        syms.push(y2);
    }
    let dt = j.dht_lens(0, 0, &[1], &[0]);
    let at = j.dht_lens(1, 0, &lens[..syms.len()], &syms);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    j.code(&dt, 0);
    for (r, y, s, x) in [(r1, y1, s1, x1), (r2, y2, s2, x2)] {
        for _ in 0..r / 16 {
            j.code(&at, 0xF0);
        }
        j.code(&at, y);
        j.bits(x, s as u32);
    }
    if b < 63 {
        j.code(&at, 0);
    }
    let v = j.end();
    let mut j = Jb::new();
    j.noff = true;
    j.dqt_flat(0, 8);
    j.sof(2, 8, 8, 8, &[c11(1)]);
    let dt = j.dht_lens(0, 0, &[1], &[0]);
    j.sos(&[(1, 0, 0)], 0, 0, 0, 0);
    j.code(&dt, 0);
    j.align0();
    for (k, s, x) in [(a, s1, x1), (b, s2, x2)] {
        let at = j.dht_lens(1, 0, &[12], &[s]);
        j.sos(&[(1, 0, 0)], k as u8, k as u8, 0, 0);
        j.code(&at, s);
        j.bits(x, s as u32);
        j.align0();
    }
    let w = j.end();
    let (o, e) = (must(&v, 1), must(&w, 2));
    check(o.len() == 64, 3);
    check_eq(&o, &e, 4);
    cover(1);
}

/// C07: a block behind any number of consumed bits decodes as it does at the start of the data.
/// params: fewest bits before it, number of cases, which block
pub fn h_balign() {
    let before = pu(0) + choice(pu(1));
    let mut x = [0u32; 3];
    for i in 0..3 {
        x[i] = u16v() as u32;
    }
    let mut out: [Vec<u8>; 2] = [Vec::new(), Vec::new()];
    for t in 0..2 {
        let mut j = Jb::new();
        j.noff = true;
        j.dqt_flat(0, 8);
        let mut left = if t == 0 { before } else { 0 };
        let threes = left % 2;
        let n = if left == 0 { 1 } else { (left - 3 * threes) / 2 + threes + 1 };
        j.sof(0, 8, 8, 8 * n as u16, &[c11(1)]);
        // two codes for no difference
        let (dl, ac): (u8, ([u8; 4], [u8; 4])) = match pu(2) {
            // joined look-up
            0 => (3, ([1, 3, 4, 5], [0, 0x03, 0x12, 0x21])),
            // the longest codes
            1 => (16, ([1, 16, 16, 16], [0, 0x09, 0xF0, 0x1A])),
            // around the length where look-up ends
            2 => (9, ([1, 8, 9, 7], [0, 0x08, 0x31, 0x01])),
            _ => (8, ([1, 2, 10, 11], [0, 0x05, 0x06, 0x10 | 7])),
        };
        let dcat = 11;
        let dt = j.dht_lens(0, 0, &[1, 2, dl], &[0, 0, dcat]);
        let (mut cl, mut cs) = (ac.0, ac.1);
        if cl[3] < cl[2] {
            cl.swap(1, 3);
            cs.swap(1, 3);
            cl.swap(2, 3);
            cs.swap(2, 3);
        }
        let at = j.dht_lens(1, 0, &cl, &cs);
        j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
        if left % 2 == 1 {
            j.bits(dt.codes[1].1, dt.codes[1].2);
            j.code(&at, 0);
            left -= 3;
        }
        while left > 0 {
            j.bits(dt.codes[0].1, dt.codes[0].2);
            j.code(&at, 0);
            left -= 2;
        }
        j.code(&dt, dcat);
        j.bits(x[0] & ((1 << dcat) - 1), dcat as u32);
        let mut m = 1;
        for i in 1..4 {
            let y = ac.1[i];
            j.code(&at, y);
            if y & 15 != 0 {
                j.bits(x[m] & ((1 << (y & 15)) - 1), (y & 15) as u32);
                m = 3 - m;
            }
        }
        j.code(&at, 0);
        let v = j.end();
        let o = must(&v, 1 + t as u32);
        check(o.len() == 64 * n, 3);
        out[t] = o[64 * (n - 1)..].to_vec();
    }
    check_eq(&out[0], &out[1], 4);
    cover(1);
}

/// C09: a scan of a component whose table was never defined is an error.
/// params: number of components, frame type (0 or 2), 1 = a scan for each component
pub fn h_qmiss() {
    let (nc, sof, sep) = (pu(0), pu(1) as u8, pu(2));
    let mut j = Jb::new();
    let mask = choice(16);
    for t in 0..4 {
        if mask >> t & 1 == 1 {
            j.dqt_flat(t as u8, 8);
        }
    }
    let mut ok = true;
    let mut cs = Vec::with_capacity(4);
    for i in 0..nc {
        let mut c = c11(i as u8 + 1);
        c.tq = choice(4) as u8;
        ok &= mask >> c.tq & 1 == 1;
        cs.push(c);
    }
    j.sof(sof, 8, 8, 8, &cs);
    let dt = j.dht_lens(0, 0, &[1], &[0]);
    let at = j.dht_lens(1, 0, &[1], &[0]);
    let se = if sof == 0 { 63 } else { 0 };
    let mut list = Vec::with_capacity(4);
    for i in 0..nc {
        list.push((i as u8 + 1, 0, 0));
    }
    let mut i = 0;
    while i < nc {
        let n = if sep == 1 { 1 } else { nc };
        j.sos(&list[i..i + n], 0, se, 0, 0);
        for _ in 0..n {
            j.code(&dt, 0);
            if sof == 0 {
                j.code(&at, 0);
            }
        }
        j.align0();
        i += n;
    }
    let v = j.end();
    let r = Decoder::new(&v[..]).decode().is_ok();
    check(r == ok, 1);
    cover(if r { 1 } else { 2 });
}
