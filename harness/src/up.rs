//! Upsampling.
use crate::geom::flat_image_arr;
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;

/// The samples of one output row / column neighbourhood: triangle filter 3/4, 1/4.
/// out position `o` of an axis doubled from `n` samples: (near, far) with far clamped to the axis.
fn nf(o: usize, n: usize) -> (usize, usize) {
    let near = o / 2;
    let far = if o % 2 == 0 { near.saturating_sub(1) } else { (near + 1).min(n - 1) };
    (near, far)
}
fn expect(p: &[u8], stride: usize, n: (usize, usize), hs: usize, vs: usize, x: usize, y: usize) -> u8 {
    let at = |x: usize, y: usize| p[y * stride + x] as u32;
    match (hs, vs) {
        (1, 1) => at(x, y) as u8,
        (2, 1) => {
            let (a, b) = nf(x, n.0);
            if a == b {
                at(a, y) as u8
            } else {
                ((3 * at(a, y) + at(b, y) + 2) >> 2) as u8
            }
        }
        (1, 2) => {
            let (a, b) = nf(y, n.1);
            ((3 * at(x, a) + at(x, b) + 2) >> 2) as u8
        }
        (2, 2) => {
            let (a, b) = nf(x, n.0);
            let (c, d) = nf(y, n.1);
            let t0 = 3 * at(a, c) + at(a, d);
            let t1 = 3 * at(b, c) + at(b, d);
            if a == b {
                ((t0 + 2) >> 2) as u8
            } else {
                ((3 * t0 + t1 + 8) >> 4) as u8
            }
        }
        _ => at(x / hs, y / vs) as u8,
    }
}

/// The samples of one axis that position `o` of the output is made of.
pub fn taps(hs: usize, vs: usize, across: bool, o: usize, n: usize) -> Vec<usize> {
    let s = if across { hs } else { vs };
    if s == 2 && hs <= 2 && vs <= 2 {
        let (a, b) = nf(o, n);
        vec![a, b]
    } else {
        vec![o / s]
    }
}

/// C10, C15.  params: w, h (of the scaled image), hmax, vmax, h, v of the middle component, scale in
/// eighths, scan arrangement, restart interval
pub fn h_up() {
    let (ow, oh, hm, vm, h, v, sc) = (pu(0), pu(1), pu(2), pu(3), pu(4), pu(5), pu(6));
    let comps = [
        Comp { id: 82, h: hm as u8, v: vm as u8, tq: 0 },
        Comp { id: 71, h: h as u8, v: v as u8, tq: 0 },
        Comp { id: 66, h: 1, v: 1, tq: 0 },
    ];
    let f = [(hm, vm), (h, v), (1, 1)];
    // full-size dimensions that scale to (ow, oh)
    let (w8, h8) = if sc == 8 { (ow, oh) } else { (ow * 8 / sc, oh * 8 / sc) };
    // 99: any of them
    let arr = if pu(7) == 99 { choice(13) } else { pu(7) };
    let groups: &[&[usize]] = match arr {
        5 => &[&[0, 2], &[1]],
        6 => &[&[1], &[0, 2]],
        7 => &[&[1, 2], &[0]],
        8 => &[&[2], &[0, 1]],
        9 => &[&[1], &[2], &[0]],
        10 => &[&[2], &[1], &[0]],
        11 => &[&[0], &[2], &[1]],
        12 => &[&[1], &[0], &[2]],
        0 => &[&[0, 1, 2]],
        1 => &[&[0], &[1], &[2]],
        2 => &[&[2], &[0], &[1]],
        3 => &[&[0], &[1, 2]],
        _ => &[&[0, 1], &[2]],
    };
    let (bytes, mut p) = flat_image_arr(&comps, w8, h8, groups, pu(8));
    let out = if sc == 8 { must(&bytes, 1) } else { must_scaled(&bytes, ow as u16, oh as u16, ow, oh, 1) };
    check(out.len() == ow * oh * 3, 2);
    for x in p.iter_mut() {
        x.resolve(sc);
    }
    let mut e = vec![0u8; out.len()];
    for c in 0..3 {
        // the component's own samples at this scale
        let n = (cdiv(w8 * f[c].0 * sc, hm * 8), cdiv(h8 * f[c].1 * sc, vm * 8));
        let stride = p[c].bw * sc;
        let mut s = vec![0u8; stride * p[c].bh * sc];
        for y in 0..p[c].bh * sc {
            for x in 0..stride {
                s[y * stride + x] = p[c].at(x / sc, y / sc);
            }
        }
        let hs = if ow == 1 { 1 } else { hm / f[c].0 };
        let vs = if oh == 1 { 1 } else { vm / f[c].1 };
        for y in 0..oh {
            for x in 0..ow {
                e[(y * ow + x) * 3 + c] = expect(&s, stride, n, hs, vs, x, y);
            }
        }
    }
    check_eq(&out, &e, 3);
    cover(1);
}
