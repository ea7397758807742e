//! Colour conversion and the choice of the colour transform.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::{ColorTransform, Decoder};

/// One block per component, each with its own symbolic sample over the full range.
fn full_range(nc: usize) -> Vec<u8> {
    let mut j = Jb::new();
    let mut comps = Vec::with_capacity(4);
    for i in 0..nc {
        let q = u16v();
        assume(q != 0);
        let mut t = [1u16; 64];
        t[0] = q;
        j.dqt(i as u8, 1, &t);
        comps.push(Comp { id: 10 + i as u8, h: 1, v: 1, tq: i as u8 });
    }
    j.sof(1, 8, 8, 8, &comps);
    let d = j.dht_lens(0, 0, &[1], &[1]);
    let a = j.dht_lens(1, 0, &[1], &[0]);
    let mut sc = Vec::with_capacity(4);
    for c in &comps {
        sc.push((c.id, 0, 0));
    }
    j.sos(&sc, 0, 63, 0, 0);
    for _ in 0..nc {
        j.code(&d, 1);
        j.bits(bit(), 1);
        j.code(&a, 0);
    }
    j.end()
}
/// The samples are raw terms: `y`, `cb` and `cr` as decoded without conversion.
fn ycc(out: &[u8], y: u8, cb: u8, cr: u8, id: u32) {
    let tol = if param(5) == 0 { 0.51 } else { param(5) as f64 / 1000.0 };
    let x = [y as i32, cb as i32, cr as i32];
    check_affine(out[0] as i32, &x, &[1.0, 0.0, 1.402], -128.0 * 1.402, 0.0, 255.0, tol, id);
    check_affine(out[1] as i32, &x, &[1.0, -0.344136, -0.714136], 128.0 * (0.344136 + 0.714136), 0.0, 255.0, tol, id + 2);
    check_affine(out[2] as i32, &x, &[1.0, 1.772, 0.0], -128.0 * 1.772, 0.0, 255.0, tol, id + 4);
}
/// C11, C23.  params: kind, width, height, components, scale in eighths (0: 8), tolerance in thousandths (0: 0.51)
pub fn h_color() {
    match pu(0) {
        0 => {
            let v = full_range(3);
            let raw = must_with(&v, ColorTransform::RGB, 1);
            let out = must_with(&v, ColorTransform::YCbCr, 2);
            check(raw.len() == 192 && out.len() == 192, 3);
            for p in 0..64 {
                ycc(&out[3 * p..], raw[3 * p], raw[3 * p + 1], raw[3 * p + 2], 10);
            }
        }
        1 => {
            // raw samples by inverting CMYK, itself checked against single-component images in C03
            let v = full_range(4);
            let raw = must_with(&v, ColorTransform::CMYK, 1);
            let out = must_with(&v, ColorTransform::YCCK, 2);
            check(raw.len() == 256 && out.len() == 256, 3);
            for p in 0..64 {
                let r = &raw[4 * p..];
                ycc(&out[4 * p..], 255 - r[0], 255 - r[1], 255 - r[2], 10);
                check(out[4 * p + 3] == r[3], 20);
            }
        }
        2 | 3 => {
            // every pixel takes its own samples
            let three = pu(0) == 2;
            let comps: &[Comp] = if three { &[c11(11), c11(12), c11(13)] } else { &[c11(11), c11(12), c11(13), c11(14)] };
            let nc = comps.len();
            let (w, h) = (pu(1), pu(2));
            let t = if three { ColorTransform::YCbCr } else { ColorTransform::YCCK };
            let sc = if pu(4) == 0 { 8 } else { pu(4) };
            let (v, mut p) = crate::geom::flat_image(comps, w * 8 / sc, h * 8 / sc);
            for x in p.iter_mut() {
                x.resolve(sc);
            }
            let out = if sc == 8 {
                must_with(&v, t, 2)
            } else {
                let mut d = Decoder::new(&v[..]);
                d.set_color_transform(t);
                check(matches!(d.scale(w as u16, h as u16), Ok(o) if o == (w as u16, h as u16)), 4);
                d.decode().unwrap_or_default()
            };
            check(out.len() == w * h * nc, 3);
            for y in 0..h {
                for x in 0..w {
                    let o = &out[nc * (y * w + x)..];
                    let s = |c: usize| p[c].at(x / sc, y / sc);
                    ycc(o, s(0), s(1), s(2), 10);
                    if !three {
                        check(o[3] == 255 - s(3), 20);
                    }
                }
            }
        }
        _ => {
            // no conversion: the samples as they are, pixel by pixel
            let nc = pu(3);
            let all = [c11(11), c11(12), c11(13), c11(14)];
            let (w, h) = (pu(1), pu(2));
            let (v, p) = crate::geom::flat_image(&all[..nc], w, h);
            let out = must_with(&v, ColorTransform::None, 2);
            check(out.len() == w * h * nc, 3);
            for y in 0..h {
                for x in 0..w {
                    for c in 0..nc {
                        check(out[nc * (y * w + x) + c] == p[c].at(x / 8, y / 8), 30);
                    }
                }
            }
        }
    }
    cover(1);
}

/// C12.  params: components, adobe (0 none, 1 + transform), jfif, order (adobe first)
pub fn h_transform() {
    let nc = pu(0);
    let ad = pu(1);
    let jf = param(2) == 1;
    let mut ids = [0u8; 4];
    bytes(&mut ids[..nc]);
    for i in 0..nc {
        for k in 0..i {
            assume(ids[i] != ids[k]);
        }
    }
    let mut j = Jb::new();
    if jf && param(3) == 0 {
        jfif(&mut j);
    }
    if ad > 0 {
        adobe(&mut j, ad as u8 - 1);
    }
    if jf && param(3) == 1 {
        jfif(&mut j);
    }
    j.dqt_flat(0, 8);
    let mut comps = Vec::with_capacity(4);
    let mut sc = Vec::with_capacity(4);
    let mut f = Vec::with_capacity(4);
    for id in &ids[..nc] {
        comps.push(c11(*id));
        sc.push((*id, 0, 0));
        f.push((1, 1));
    }
    j.sof(0, 8, 8, 8, &comps);
    let t = flat_tables(&mut j);
    j.sos(&sc, 0, 63, 0, 0);
    if nc == 1 {
        let mut p = Plane::new(1, 1);
        flat_scan(&mut j, &t, &mut p, 1, 1, 0);
    } else {
        flat_mcus(&mut j, &t, &f, 1, 1, 0);
    }
    let v = j.end();
    use ColorTransform::*;
    let is = |a: u8, b: u8, c: u8| ids[0] == a && ids[1] == b && ids[2] == c;
    let want = if nc == 1 {
        Grayscale
    } else if nc == 3 {
        if is(1, 2, 3) {
            YCbCr
        } else if is(1, 34, 35) {
            JcsBgYcc
        } else if is(82, 71, 66) {
            RGB
        } else if is(114, 103, 98) {
            JcsBgRgb
        } else if jf {
            YCbCr
        } else if ad == 1 {
            RGB
        } else {
            YCbCr
        }
    } else if ad == 0 || ad == 1 {
        CMYK
    } else {
        YCCK
    };
    let r = dec(&v);
    if param(4) == 1 {
        // an explicit transform wins over everything in the stream
        let all = [None, Grayscale, RGB, YCbCr, CMYK, YCCK, JcsBgYcc, JcsBgRgb, Unknown];
        let k = choice(9);
        let mut d = Decoder::new(&v[..]);
        d.set_color_transform(all[k]);
        let r = d.decode();
        let legal = match all[k] {
            None => true,
            RGB | YCbCr => nc == 3,
            CMYK | YCCK => nc == 4,
            _ => false,
        };
        check(nc == 1 || r.is_ok() == legal, 5);
        cover(3);
        return;
    }
    match want {
        JcsBgYcc | JcsBgRgb => {
            check(r.is_err(), 1);
            cover(1);
        }
        _ => {
            let e = must_with(&v, want, 2);
            match r {
                Ok(o) => {
                    check(o.len() == 64 * nc, 3);
                    check_eq(&o, &e, 4);
                    cover(2);
                }
                Err(_) => check(false, 6),
            }
        }
    }
}

/// C12: every Adobe segment.  The transform byte decides, the other fields do not; values above 2 are errors.
/// params: components, further bytes, place (0 before the frame, 1 behind it)
pub fn h_adobe() {
    let (nc, more, late) = (pu(0), pu(1), pu(2) == 1);
    let t = byte();
    let mut rest = [0u8; 5];
    bytes(&mut rest);
    let mut seg = b"Adobe\0".to_vec();
    for x in rest {
        seg.push(x);
    }
    seg.push(t);
    for _ in 0..more {
        seg.push(byte());
    }
    let plain = [b'A', b'd', b'o', b'b', b'e', 0, 100, 0, 0, 0, 0, if t > 2 { 0 } else { t }];
    let comps = [c11(7), c11(9), c11(8), c11(3)];
    let build = |s: &[u8], late: bool, vals: &[u8; 4]| {
        let mut j = Jb::new();
        if !late {
            j.seg(0xEE, s);
        }
        j.dqt_flat(0, 8);
        j.sof(0, 8, 8, 8, &comps[..nc]);
        if late {
            j.seg(0xEE, s);
        }
        let dt = j.dht_lens(0, 0, &[2], &[7]);
        let at = j.dht_lens(1, 0, &[1], &[0]);
        let list = [(7, 0, 0), (9, 0, 0), (8, 0, 0), (3, 0, 0)];
        j.sos(&list[..nc], 0, 63, 0, 0);
        for i in 0..nc {
            j.code(&dt, 7);
            j.bits(vals[i] as u32, 7);
            j.code(&at, 0);
        }
        j.end()
    };
    // concrete samples, which every transformation shows differently
    let vals = [100, 20, 70, 90];
    let v = build(&seg, late, &vals);
    let r = dec(&v);
    if t > 2 {
        check(r.is_err(), 1);
        cover(2);
    } else {
        // not every combination is supported
        let e = dec(&build(&plain, false, &vals));
        check(e.is_ok() || (nc == 3 && t == 2) || (nc == 4 && t == 1), 2);
        match (r, e) {
            (Ok(o), Ok(e)) => check_eq(&o, &e, 3),
            (Err(_), Err(_)) => (),
            _ => check(false, 4),
        }
        cover(1);
    }
}
