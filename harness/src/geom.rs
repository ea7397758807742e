//! Header validation, sizes, scaling factors, limits.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::{CodingProcess, Decoder, PixelFormat};

/// C02.  params: SOF number, component records present.  Every other header byte is symbolic.
pub fn h_sof() {
    let n = pu(0) as u8;
    let k = pu(1);
    let mut hd = [0u8; 8];
    bytes(&mut hd);
    let mut cs = [0u8; 15];
    bytes(&mut cs[..3 * k]);
    let mut v = Vec::with_capacity(64);
    for b in [0xFF, 0xD8, 0xFF, 0xC0 + n] {
        v.push(b);
    }
    for b in hd {
        v.push(b);
    }
    for b in &cs[..3 * k] {
        v.push(*b);
    }
    let len = (hd[0] as u32) << 8 | hd[1] as u32;
    let prec = hd[2];
    let h = (hd[3] as u32) << 8 | hd[4] as u32;
    let w = (hd[5] as u32) << 8 | hd[6] as u32;
    let count = hd[7] as usize;
    let lossless = n == 3;
    let mut d = Decoder::new(&v[..]);
    check(d.info().is_none(), 1);
    let r = d.read_info().is_ok();
    // what must hold of an accepted header
    let process = n == 0 || n == 1 || n == 2 || n == 3;
    let precision = if lossless { (2..=16).contains(&prec) } else { prec == 8 };
    let comps = (count == 1) | (count == 3) | (count == 4);
    let mut good = process & precision & (w != 0) & (h != 0) & comps & (count <= k) & (len == 8 + 3 * count as u32);
    // the ratios every component must have; `weak` drops the axes of one pixel
    let mut strict = true;
    let mut weak = true;
    if count == k {
        let (mut hm, mut vm) = (0u8, 0u8);
        for i in 0..k {
            let (hh, vv) = (cs[3 * i + 1] >> 4, cs[3 * i + 1] & 15);
            hm = hm.max(hh);
            vm = vm.max(vv);
        }
        for i in 0..k {
            let (hh, vv, tq) = (cs[3 * i + 1] >> 4, cs[3 * i + 1] & 15, cs[3 * i + 2]);
            good &= (hh >= 1) & (hh <= 4) & (vv >= 1) & (vv <= 4) & (tq <= if lossless { 0 } else { 3 });
            for l in 0..i {
                good &= cs[3 * l] != cs[3 * i];
            }
            // a divides b, for 1..=4
            let dv = |a: u8, b: u8| (a == b) | (a == 1) | ((a == 2) & (b == 4));
            strict &= dv(hh, hm) & dv(vv, vm);
            weak &= (dv(hh, hm) | (w == 1)) & (dv(vv, vm) | (h == 1));
        }
    } else {
        // fewer records than present, or more: only rejection for cause is decided here
        assume(!good);
    }
    if r {
        check(good, 2);
        check(weak, 3);
        match d.info() {
            Some(i) => {
                check((i.width as u32 == w) & (i.height as u32 == h), 4);
                let pf = if k == 1 {
                    if prec <= 8 {
                        PixelFormat::L8
                    } else {
                        PixelFormat::L16
                    }
                } else if k == 3 {
                    PixelFormat::RGB24
                } else {
                    PixelFormat::CMYK32
                };
                check(i.pixel_format == pf, 5);
                let cp = match n {
                    2 => CodingProcess::DctProgressive,
                    3 => CodingProcess::Lossless,
                    _ => CodingProcess::DctSequential,
                };
                check(i.coding_process == cp, 6);
                cover(1);
            }
            None => check(false, 7),
        }
        // reading it again changes nothing
        check(d.read_info().is_ok(), 8);
    } else {
        check(!(good & strict), 9);
        check(d.info().is_none(), 10);
        cover(2);
    }
}

/// C04.  params: SOF number, sampling set (0: 1 comp, 1: 4:2:0, 2: 4:4:4 x4)
pub fn h_scale() {
    let (w, h) = (u16v(), u16v());
    assume(w != 0 && h != 0);
    let (rw, rh) = (u16v(), u16v());
    let n = pu(0) as u8;
    let comps: &[Comp] = match pu(1) {
        0 => &[Comp { id: 1, h: 1, v: 1, tq: 0 }],
        1 => &[Comp { id: 1, h: 2, v: 2, tq: 0 }, Comp { id: 2, h: 1, v: 1, tq: 0 }, Comp { id: 3, h: 1, v: 1, tq: 0 }],
        _ => &[Comp { id: 1, h: 1, v: 1, tq: 0 }, Comp { id: 2, h: 1, v: 1, tq: 0 }, Comp { id: 3, h: 1, v: 1, tq: 0 }, Comp { id: 4, h: 1, v: 1, tq: 0 }],
    };
    let mut j = Jb::new();
    j.sof(n, 8, w, h, comps);
    let v = j.out;
    let mut d = Decoder::new(&v[..]);
    if param(2) == 1 {
        // an earlier request has no influence
        let (qw, qh) = (u16v(), u16v());
        let _ = d.scale(qw, qh);
    }
    let r = d.scale(rw, rh);
    let up = |x: u16, s: u32| (x as u32 * s + 7) / 8;
    let fits = |s: u32| (up(w, s) >= rw as u32) | (up(h, s) >= rh as u32);
    let s = if n == 3 {
        8
    } else if fits(1) {
        1
    } else if fits(2) {
        2
    } else if fits(4) {
        4
    } else {
        8
    };
    match r {
        Ok((ow, oh)) => {
            check((ow as u32 == up(w, s)) & (oh as u32 == up(h, s)), 1);
            match d.info() {
                Some(i) => check((i.width == ow) & (i.height == oh), 2),
                None => check(false, 3),
            }
        }
        Err(_) => check(false, 4),
    }
    cover(1);
}

/// Frames of any size without a scan: the answer is that there is no data if the size is within the limit, and
/// another one if it is not.
fn limit_any(kind: usize) {
    let (w, h) = (u16v(), if kind == 2 { pick(&[1, 2, 3, 5461, 32768, 65535]) } else { u16v() });
    assume(w != 0 && h != 0);
    let mut lim = [0u8; 8];
    bytes(&mut lim);
    let lim = u64::from_be_bytes(lim) as usize;
    let nc = [1, 3, 4, 1, 1][kind];
    let mut j = Jb::new();
    j.dqt_flat(0, 8);
    let cs = [c11(1), c11(2), c11(3), c11(4)];
    let (n, prec) = [(0, 8), (1, 8), (2, 8), (3, 8), (3, 12)][kind];
    j.sof(n, prec, w, h, &cs[..nc]);
    let v = j.end();
    let text = |lim: usize| {
        let mut d = Decoder::new(&v[..]);
        d.set_max_decoding_buffer_size(lim);
        match d.decode() {
            Err(jpeg_decoder::Error::Format(s)) => s,
            _ => {
                check(false, 1);
                String::new()
            }
        }
    };
    let free = text(usize::MAX);
    let got = text(lim);
    let need = nc * w as usize * h as usize * if prec > 8 { 2 } else { 1 };
    check((free == got) == (need <= lim), 2);
    core::mem::forget((free, got));
    cover(1);
}

/// C05.  params: kind
pub fn h_limit() {
    let kind = pu(0);
    if kind >= 20 {
        return limit_any(kind - 20);
    }
    let mut lim = [0u8; 8];
    bytes(&mut lim);
    let lim = u64::from_be_bytes(lim) as usize;
    let (v, bytes, scale) = match kind {
        0 => (flat_image(&[c11(1)], 9, 3).0, 27, false),
        1 => (flat_image(&[c11(82), c11(71), c11(66)], 5, 2).0, 30, false),
        2 => (flat_image(&[c11(1), c11(2), c11(3), c11(4)], 3, 2).0, 24, false),
        3 => (flat_image(&[c11(1)], 12, 9).0, 2 * 2, true),
        4 => (crate::lossless::image(8, 3, 2, 1), 6, false),
        5 => (crate::lossless::image(16, 3, 2, 1), 12, false),
        6 => (flat_image_arr(&[c11(1)], 9, 17, &[&[0]], 1000).0, 153, false),
        7 => (flat_image_arr(&[Comp { id: 1, h: 2, v: 2, tq: 0 }, c11(2), c11(3)], 9, 7, &[&[0, 1, 2]], 1000).0, 189, false),
        8 => (flat_image(&[Comp { id: 1, h: 2, v: 1, tq: 0 }, c11(2), c11(3)], 17, 9).0, 3 * 3 * 2, true),
        9 => (flat_image(&[c11(1), c11(2), c11(3), c11(4)], 9, 9).0, 4 * 2 * 2, true),
        10 => (crate::lossless::image(9, 3, 2, 1), 12, false),
        11 => (crate::lossless::image(2, 3, 2, 1), 6, false),
        _ => (crate::lossless::image(8, 3, 2, 3), 18, false),
    };
    let mut d = Decoder::new(&v[..]);
    d.set_max_decoding_buffer_size(lim);
    if scale {
        let _ = d.scale(1, 1);
    }
    match d.decode() {
        Ok(p) => {
            check(p.len() == bytes, 1);
            check(lim >= bytes, 2);
            cover(1);
        }
        Err(_) => {
            check(lim < bytes, 3);
            cover(2);
        }
    }
}

/// A sequential image of flat blocks in one scan.
pub fn flat_image(comps: &[Comp], w: usize, h: usize) -> (Vec<u8>, Vec<Plane>) {
    let all = [0, 1, 2, 3];
    flat_image_arr(comps, w, h, &[&all[..comps.len()]], 0)
}
/// The scans of `groups`, each interleaving the components it lists, restart interval `ri` (with 1000
/// added: DC scans of a progressive picture which has no others).
pub fn flat_image_arr(comps: &[Comp], w: usize, h: usize, groups: &[&[usize]], ri: usize) -> (Vec<u8>, Vec<Plane>) {
    let mut j = Jb::new();
    j.dqt_flat(0, 8);
    j.prog = ri >= 1000;
    j.sof(if j.prog { 2 } else { 0 }, 8, w as u16, h as u16, comps);
    let ri = ri % 1000;
    let t = flat_tables(&mut j);
    if ri > 0 {
        j.dri(ri as u16);
    }
    let (mut hm, mut vm) = (1, 1);
    for c in comps {
        hm = hm.max(c.h as usize);
        vm = vm.max(c.v as usize);
    }
    let (mx, my) = (cdiv(w, 8 * hm), cdiv(h, 8 * vm));
    let mut planes = Vec::with_capacity(4);
    for c in comps {
        planes.push(Plane::new(mx * c.h as usize, my * c.v as usize));
    }
    for g in groups {
        let mut sc = Vec::with_capacity(4);
        let mut f = Vec::with_capacity(4);
        for &i in g.iter() {
            let c = &comps[i];
            sc.push((c.id, 0, 0));
            f.push((c.h as usize, c.v as usize));
        }
        j.sos(&sc, 0, if j.prog { 0 } else { 63 }, 0, 0);
        if g.len() == 1 {
            let c = &comps[g[0]];
            let (bw, bh) = (cdiv(w * c.h as usize, 8 * hm), cdiv(h * c.v as usize, 8 * vm));
            flat_scan(&mut j, &t, &mut planes[g[0]], bw, bh, ri);
        } else {
            let ps = flat_mcus(&mut j, &t, &f, mx, my, ri);
            for (p, &i) in ps.into_iter().zip(g.iter()) {
                planes[i] = p;
            }
        }
        j.align();
    }
    (j.end(), planes)
}

/// C03.  params: w, h, components, sampling factors (two digits), scale in eighths, restart interval
/// (with 1000 added: DC-only progressive)
pub fn h_layout() {
    let (w, h, nc, s) = (pu(0), pu(1), pu(2), pu(3));
    let comps: Vec<Comp> = match nc {
        1 => vec![Comp { id: 9, h: (s / 10) as u8, v: (s % 10) as u8, tq: 0 }],
        3 => vec![Comp { id: 82, h: (s / 10) as u8, v: (s % 10) as u8, tq: 0 }, Comp { id: 71, h: (s / 10) as u8, v: (s % 10) as u8, tq: 0 }, Comp { id: 66, h: (s / 10) as u8, v: (s % 10) as u8, tq: 0 }],
        _ => vec![c11(1), c11(2), c11(3), c11(4)],
    };
    let all = [0, 1, 2, 3];
    let mut groups: Vec<Vec<usize>> = vec![all[..comps.len()].to_vec()];
    if pu(6) == 1 {
        // any distribution over scans, in any order
        groups = vec![Vec::new(); comps.len()];
        let n = comps.len();
        let mut k = choice(n.pow(n as u32));
        let mut last = 0;
        for i in 0..n {
            groups[k % n].push(i);
            last = last.max(k % n);
            k /= n;
        }
        for g in 0..=last {
            assume(!groups[g].is_empty());
        }
        groups.truncate(last + 1);
    }
    let gs: Vec<&[usize]> = groups.iter().map(|g| &g[..]).collect();
    let (v, p) = flat_image_arr(&comps, w, h, &gs, pu(5));
    let sc = pu(4);
    let (out, ow, oh, b) = if sc == 0 || sc == 8 {
        (must(&v, 1), w, h, 8)
    } else {
        let (ow, oh) = (cdiv(w * sc, 8), cdiv(h * sc, 8));
        (must_scaled(&v, ow as u16, oh as u16, ow, oh, 1), ow, oh, sc)
    };
    check(out.len() == ow * oh * nc, 2);
    let mut e = Vec::with_capacity(out.len());
    for y in 0..oh {
        for x in 0..ow {
            for c in 0..nc {
                let q = p[c].at(x / b, y / b);
                e.push(if nc == 4 { 255 - q } else { q });
            }
        }
    }
    check_eq(&out, &e, 3);
    cover(1);
}
