//! Lossless process.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::Decoder;

/// A concrete lossless image of zero differences.
pub fn image(prec: u8, w: u16, h: u16, nc: usize) -> Vec<u8> {
    let mut j = Jb::new();
    let comps: Vec<Comp> = (0..nc).map(|i| c11(i as u8 + 1)).collect();
    j.sof(3, prec, w, h, &comps);
    let t = j.dht_lens(0, 0, &[1], &[0]);
    let sc: Vec<(u8, u8, u8)> = comps.iter().map(|c| (c.id, 0, 0)).collect();
    j.sos(&sc, 1, 0, 0, 0);
    for _ in 0..w as usize * h as usize * nc {
        j.code(&t, 0);
    }
    j.end()
}

/// Table H.1 with the boundary rules of H.1.2.1; `start` marks the first sample of the scan or of a
/// restart interval, `top` its first line.
fn predict(sel: usize, prec: u32, pt: u32, start: bool, top: bool, x: usize, ra: i32, rb: i32, rc: i32) -> i32 {
    if start {
        1 << (prec - pt - 1)
    } else if top {
        ra
    } else if x == 0 {
        rb
    } else {
        match sel {
            1 => ra,
            2 => rb,
            3 => rc,
            4 => ra + rb - rc,
            5 => ra + ((rb - rc) >> 1),
            6 => rb + ((ra - rc) >> 1),
            _ => (ra + rb) >> 1,
        }
    }
}

/// C16.  params: predictor, precision, point transform, w, h, components, restart interval in rows,
/// category, non-interleaved
pub fn h_lossless() {
    let (sel, prec, pt, w, h, nc, rows, cat, sep) = (pu(0), pu(1) as u32, pu(2) as u32, pu(3), pu(4), pu(5), pu(6), pu(7) as u32, pu(8));
    let mut j = Jb::new();
    j.nostuff = cat < 8 || cat == 16;
    let mut comps = Vec::with_capacity(4);
    for i in 0..nc {
        comps.push(c11(i as u8 + 1));
    }
    j.sof(3, prec as u8, w as u16, h as u16, &comps);
    let t = j.dht_lens(0, 0, &[1], &[cat as u8]);
    if rows > 0 {
        j.dri((rows * w) as u16);
    }
    let scans = if sep == 1 { nc } else { 1 };
    let mut val = vec![0i32; w * h * nc];
    for s in 0..scans {
        let cs: Vec<usize> = if sep == 1 { vec![s] } else { (0..nc).collect() };
        let sc: Vec<(u8, u8, u8)> = cs.iter().map(|c| (comps[*c].id, 0, 0)).collect();
        j.sos(&sc, sel as u8, 0, 0, pt as u8);
        for y in 0..h {
            if rows > 0 && y > 0 && y % rows == 0 {
                j.rst(((y / rows - 1) % 8) as u8);
            }
            let top = if rows > 0 { y % rows == 0 } else { y == 0 };
            for x in 0..w {
                for &c in &cs {
                    let m = (1u32 << cat) - 1;
                    let b = if cat > 8 { u16v() as u32 & m } else { byte() as u32 & m };
                    j.code(&t, cat as u8);
                    // category 16 stands for 32768 and has no further bits
                    if cat < 16 {
                        j.bits(b, cat);
                    }
                    let diff = if cat < 16 { ext(b, cat) } else { 32768 };
                    let at = |x: usize, y: usize| (y * w + x) * nc + c;
                    let ra = if x > 0 { val[at(x - 1, y)] } else { 0 };
                    let rb = if y > 0 { val[at(x, y - 1)] } else { 0 };
                    let rc = if x > 0 && y > 0 { val[at(x - 1, y - 1)] } else { 0 };
                    let p = predict(sel, prec, pt, top && x == 0, top, x, ra, rb, rc);
                    val[at(x, y)] = (p + diff) & 0xFFFF;
                }
            }
        }
        j.align();
    }
    let v = j.end();
    let mut d = Decoder::new(&v[..]);
    let out = match d.decode() {
        Ok(p) => p,
        Err(_) => {
            check(false, 1);
            return;
        }
    };
    let mut e = Vec::with_capacity(2 * val.len());
    for x in &val {
        let s = ((*x << pt) & 0xFFFF) as u16;
        if prec <= 8 {
            e.push(s as u8);
        } else {
            let b = s.to_ne_bytes();
            e.push(b[0]);
            e.push(b[1]);
        }
    }
    check(out.len() == e.len(), 2);
    check_eq(&out, &e, 3);
    cover(1);
}
