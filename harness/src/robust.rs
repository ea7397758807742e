//! C01: whatever the bytes and the calls, an answer and no trap.  These entries run on code built with
//! overflow checks and debug assertions; the engine reports panics, traps, bad memory accesses and
//! paths that do not end.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::{ColorTransform, Decoder};

/// Everything one can ask of a decoder, after `mode`: 0 decode; 1 read_info, scale, decode; 2 a buffer
/// limit; 3 decode twice; 4 colour transforms
pub fn exercise(v: &[u8], mode: usize) {
    let mut d = Decoder::new(v);
    match mode {
        1 => {
            let i = d.read_info().is_ok();
            let s = d.scale(1, 1).is_ok();
            check(i == s, 1);
        }
        2 => d.set_max_decoding_buffer_size(100),
        4 => d.set_color_transform(ColorTransform::YCCK),
        _ => {}
    }
    let r = d.decode();
    let ok = r.is_ok();
    if let Ok(p) = &r {
        if let Some(i) = d.info() {
            // the picture has the announced size
            let n = i.width as usize * i.height as usize;
            check(p.len() == n * i.pixel_format.pixel_bytes() || p.len() == 2 * n * i.pixel_format.pixel_bytes(), 2);
        } else {
            check(false, 3);
        }
    }
    core::mem::forget(r);
    let _ = d.icc_profile();
    let _ = d.exif_data();
    let _ = d.xmp_data();
    let _ = d.info();
    if mode == 3 {
        let _ = d.read_info();
        let _ = d.scale(3, 3);
        core::mem::forget(d.decode());
    }
    cover(1);
    if ok {
        cover(2);
    } else {
        cover(3);
    }
}

/// Wholly symbolic bytes.  params: bytes, what precedes them (0 nothing, 1 SOI, 2 everything up to the
/// frame header, 3 everything up to the scan header, 4 a complete first scan), mode, marker of a segment
/// they are in (0: none), what follows them (as what precedes; 3: no frame header), components, SOF number,
/// symbolic bytes right behind the segment (what a parser reads which goes beyond the end of its segment)
pub fn h_raw() {
    let (n, pre, mode, seg) = (pu(0), pu(1), pu(2), pu(3) as u8);
    let mut j = Jb::new();
    if pre == 0 {
        j.out.clear();
    }
    if pre >= 2 {
        j.dqt_flat(0, 8);
    }
    let post = pu(4);
    let three = pu(5) == 3;
    let comps = if three { vec![Comp { id: 1, h: 2, v: 2, tq: 0 }, c11(2), c11(3)] } else { vec![c11(1)] };
    let sof = pu(6) as u8;
    let frame = |j: &mut Jb| {
        j.sof(sof, 8, 9, 8, &comps);
    };
    if pre >= 3 {
        frame(&mut j);
    }
    let scan = |j: &mut Jb, t: &(Huff, Huff)| {
        j.prog = sof == 2;
        if three {
            j.sos(&[(1, 0, 0), (2, 0, 0), (3, 0, 0)], if sof == 3 { 1 } else { 0 }, if sof == 0 { 63 } else { 0 }, 0, 0);
        } else {
            j.sos(&[(1, 0, 0)], if sof == 3 { 1 } else { 0 }, if sof == 0 { 63 } else { 0 }, 0, 0);
        }
        for _ in 0..if sof == 3 { 60 } else { 8 } {
            flat_block(j, t, 5);
        }
        j.align();
        j.prog = false;
    };
    let mut t = None;
    if pre >= 3 {
        let x = flat_tables(&mut j);
        if pre >= 4 {
            scan(&mut j, &x);
        }
        t = Some(x);
    }
    let mut s = vec![0u8; n];
    bytes(&mut s);
    if seg != 0 {
        j.seg(seg, &s);
    } else {
        j.raw(&s);
    }
    let mut more = vec![0u8; pu(7)];
    bytes(&mut more);
    if more.len() > 7 {
        // as data rather than as further segments
        for x in more.iter() {
            assume((*x != 0) & (*x != 0xFF));
        }
    }
    j.raw(&more);
    if post > 0 {
        if pre < 2 {
            j.dqt_flat(0, 8);
        }
        if pre < 3 && post == 2 {
            frame(&mut j);
        }
        if t.is_none() {
            t = Some(flat_tables(&mut j));
        }
        if post > 1 {
            scan(&mut j, t.as_ref().unwrap());
        }
        j.marker(EOI);
    }
    exercise(&j.out, mode);
}

/// Wholly symbolic entropy-coded data.  params: bytes of it, kind, components, restart interval, width,
/// height, mode, which scan (progressive)
pub fn h_ent() {
    let (n, kind, nc, ri, w, h, mode) = (pu(0), pu(1), pu(2), pu(3), pu(4) as u16, pu(5) as u16, pu(6));
    let mut j = Jb::new();
    j.dqt_flat(0, 0xFFFF);
    let comps = match nc {
        1 => vec![c11(1)],
        2 => vec![Comp { id: 1, h: 2, v: 2, tq: 0 }],
        4 => vec![c11(1), c11(2), c11(3), c11(4)],
        _ => vec![Comp { id: 1, h: 2, v: 2, tq: 0 }, c11(2), c11(3)],
    };
    let sof = match kind {
        0 => 0,
        1..=4 => 2,
        _ => 3,
    };
    let mut s = vec![0u8; n];
    bytes(&mut s);
    j.sof(sof, if kind == 6 { 16 } else { 8 }, w, h, &comps);
    // 2-bit codes for the first, 3 bits and so on for the others; one code is left unassigned
    let lens = [2u8, 2, 3, 3, 4, 4, 5, 5];
    let acv: [u8; 8] = match kind {
        3 | 4 => [0x00, 0x01, 0x11, 0xF0, 0x10, 0xE0, 0xE1, 0x0F],
        _ => [0x00, 0x01, 0x0A, 0xF0, 0x10, 0xF1, 0xFF, 0xEA],
    };
    j.dht_lens(0, 0, &lens, &[0, 1, 11, 10, 8, 15, 16, 3]);
    let _ = j.dht_lens(1, 0, &lens, &acv);
    if ri > 0 {
        j.dri(ri as u16);
    }
    let mut sc = Vec::with_capacity(4);
    for c in &comps {
        sc.push((c.id, 0, 0));
    }
    match kind {
        0 => j.sos(&sc, 0, 63, 0, 0),
        1 => j.sos(&sc, 0, 0, 0, pu(7) as u8),
        2 => j.sos(&sc, 0, 0, pu(7) as u8 + 1, pu(7) as u8),
        3 => j.sos(&sc[..1], 1, 63, 0, pu(7) as u8),
        4 => {
            // a first pass with something to refine
            j.sos(&sc[..1], 1, 63, 0, 1);
            let u = pu(8);
            for i in 0..4 {
                j.raw(&[[0x12, 0x34, 0x50, 0x29][i].max(u as u8)]);
            }
            j.sos(&sc[..1], 1, 63, 1, 0);
        }
        _ => j.sos(&sc, pu(7) as u8, 0, 0, if kind == 5 { 0 } else { pu(8) as u8 }),
    }
    j.raw(&s);
    j.marker(EOI);
    exercise(&j.out, mode);
}

/// Extreme sizes.  params: width, height (0: any), components, scale denominator, SOF number, limit,
/// factors, whether there is some entropy-coded data
pub fn h_big() {
    let (w, h, nc, sd, sof, lim, f) = (pu(0), pu(1), pu(2), pu(3), pu(4) as u8, pu(5), pu(6));
    let mut j = Jb::new();
    j.dqt_flat(0, 1);
    // 0: any
    let w = if w == 0 { u16v() as usize } else { w };
    let h = if h == 0 { u16v() as usize } else { h };
    let mut comps = vec![Comp { id: 1, h: (f / 10) as u8, v: (f % 10) as u8, tq: 0 }];
    for i in 1..nc {
        comps.push(c11(i as u8 + 1));
    }
    j.sof(sof, 8, w as u16, h as u16, &comps);
    flat_tables(&mut j);
    let mut sc = Vec::with_capacity(4);
    for c in &comps {
        sc.push((c.id, 0, 0));
    }
    j.sos(&sc, if sof == 3 { 1 } else { 0 }, if sof == 0 { 63 } else { 0 }, 0, 0);
    if pu(7) > 0 {
        j.raw(&[0x55, 0x2A]);
        j.marker(EOI);
    }
    let v = j.out;
    let mut d = Decoder::new(&v[..]);
    d.set_max_decoding_buffer_size(lim);
    if sd > 1 {
        let _ = d.scale((w / sd) as u16, (h / sd) as u16);
    }
    let r = d.decode();
    cover(1);
    core::mem::forget(r);
}

/// Every combination of sampling factors: a picture of constant colour.  params: width, height,
/// components, SOF number, factors of the first component as one byte (0: any), scale, separate scans,
/// whether sampling is to be legal
pub fn h_fact() {
    let (w, h, nc, sof, f0, sc, sep) = (pu(0), pu(1), pu(2), pu(3) as u8, pu(4) as u8, pu(5), pu(6));
    let mut j = Jb::new();
    j.dqt_flat(0, 1);
    let mut f = vec![0u8; nc];
    bytes(&mut f);
    if f0 != 0 {
        f[0] = f0;
    }
    let mut s = Vec::with_capacity(16);
    s.extend_from_slice(&[8, 0, h as u8, 0, w as u8, nc as u8]);
    for i in 0..nc {
        s.extend_from_slice(&[i as u8 + 1, f[i], 0]);
    }
    j.seg(0xC0 + sof, &s);
    j.dht_lens(0, 0, &[1], &[0]);
    j.dht_lens(1, 0, &[1], &[0]);
    let zeros = vec![0u8; 700];
    let (ss, se) = (if sof == 3 { 1 } else { 0 }, if sof < 2 { 63 } else { 0 });
    if sep == 1 {
        for i in 0..nc {
            j.sos(&[(i as u8 + 1, 0, 0)], ss, se, 0, 0);
            j.raw(&zeros);
        }
    } else {
        let mut c = Vec::with_capacity(4);
        for i in 0..nc {
            c.push((i as u8 + 1, 0, 0));
        }
        j.sos(&c, ss, se, 0, 0);
        j.raw(&zeros);
    }
    j.marker(EOI);
    // legal and supported: factors 1 to 4, at most 10 blocks in an MCU, integral ratios
    let (mut hm, mut vm, mut sum, mut legal, mut ones) = (1, 1, 0, true, true);
    for i in 0..nc {
        let (a, b) = ((f[i] >> 4) as usize, (f[i] & 15) as usize);
        legal &= (1..=4).contains(&a) & (1..=4).contains(&b);
        ones &= (a == 1) & (b == 1);
        hm = hm.max(a);
        vm = vm.max(b);
        sum += a * b;
    }
    legal &= sum <= 10 || nc == 1 || sep == 1;
    if legal {
        for i in 0..nc {
            let (a, b) = ((f[i] >> 4) as usize, (f[i] & 15) as usize);
            legal &= (hm % a == 0) & (vm % b == 0);
        }
    }
    if sof == 3 {
        legal &= ones;
    }
    let mut d = Decoder::new(&j.out[..]);
    if d.read_info().is_ok() {
        for i in 0..nc {
            concretize(f[i] as u64);
        }
    }
    let (mut ow, mut oh) = (w, h);
    if sc != 8 && sof != 3 {
        match d.scale(((w * sc + 7) / 8) as u16, ((h * sc + 7) / 8) as u16) {
            Ok((a, b)) => {
                ow = a as usize;
                oh = b as usize;
            }
            Err(_) => {
                check(!legal, 1);
                return;
            }
        }
    }
    let r = d.decode();
    match &r {
        Ok(p) => {
            cover(1);
            check(p.len() == ow * oh * nc, 2);
            let mut all = true;
            for &x in p.iter() {
                all &= x == if nc == 4 { 127 } else { 128 };
            }
            check(all, 3);
        }
        Err(_) => {
            cover(2);
            check(!legal, 4);
        }
    }
    core::mem::forget(r);
}

/// The number of bytes returned is the number announced.  params: components, precision, SOF number
pub fn h_format() {
    let (nc, p, sof) = (pu(0), pu(1) as u8, pu(2) as u8);
    let (w, h) = (choice(4) + 1, choice(3) + 1);
    let mut j = Jb::new();
    j.dqt_flat(0, 1);
    let mut comps = Vec::with_capacity(4);
    for i in 0..nc {
        comps.push(c11(i as u8 + 1));
    }
    j.sof(sof, p, w as u16, h as u16, &comps);
    j.dht_lens(0, 0, &[2], &[1]);
    j.dht_lens(1, 0, &[1], &[0]);
    let mut c = Vec::with_capacity(4);
    for i in 0..nc {
        c.push((i as u8 + 1, 0, 0));
    }
    let pr = if sof == 3 { choice(7) as u8 + 1 } else { 0 };
    j.sos(&c, pr, if sof < 2 { 63 } else { 0 }, 0, 0);
    for _ in 0..nc * if sof == 3 { w * h } else { 1 } {
        j.bits(0, 2);
        j.bits(bit(), 1);
        if sof < 2 {
            j.bits(0, 1);
        }
    }
    j.align();
    j.marker(EOI);
    let mut d = Decoder::new(&j.out[..]);
    let r = d.decode();
    check(r.is_ok(), 1);
    if let (Ok(v), Some(i)) = (&r, d.info()) {
        cover(1);
        // with a fourth parameter: only for the absence of panics
        check(pu(3) != 0 || v.len() == w * h * i.pixel_format.pixel_bytes(), 2);
        check(i.pixel_format.pixel_bytes() == nc * if sof == 3 && p > 8 && nc == 1 { 2 } else { 1 }, 3);
        check((i.width as usize, i.height as usize) == (w, h), 4);
    } else {
        check(false, 5);
    }
    core::mem::forget(r);
}
