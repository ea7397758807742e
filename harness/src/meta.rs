//! Metadata segments (C17) and the marker layer (C18).
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::Decoder;

/// A picture of one flat block in pieces, so that segments can be put between them.
pub struct Pic {
    bits: u32,
    pub want: u8,
}
impl Pic {
    pub fn new() -> Pic {
        let (bits, d) = diff6();
        Pic { bits, want: clamp8(d + 128) }
    }
    /// Piece `k` of 5: tables, frame, code tables, scan, end.
    pub fn piece(&self, j: &mut Jb, k: usize) {
        match k {
            0 => j.dqt_flat(0, 8),
            1 => j.sof(0, 8, 8, 8, &[c11(1)]),
            2 => {
                flat_tables(j);
            }
            3 => {
                j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
                j.bits(0, 1);
                j.bits(self.bits, 6);
                j.bits(0, 1);
            }
            _ => j.eoi(),
        }
    }
    pub fn all(&self, p: &[u8], id: u32) {
        check(p.len() == 64, id);
        for i in 0..64 {
            check_eq(&[p[i]], &[self.want], id);
        }
    }
}
fn sym(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(&mut v);
    v
}
fn icc_seg(j: &mut Jb, seq: u8, num: u8, data: &[u8]) {
    let mut p = Vec::with_capacity(14 + data.len());
    for b in b"ICC_PROFILE\0" {
        p.push(*b);
    }
    p.push(seq);
    p.push(num);
    for b in data {
        p.push(*b);
    }
    j.seg(0xE2, &p);
}

/// C17.  params: chunks, bound on the numbers (0: all), place of the first, place of the others.
/// Every sequence number, count and data byte is symbolic.
pub fn h_icc() {
    let (n, max) = (pu(0), pu(1));
    let pic = Pic::new();
    let mut seq = Vec::with_capacity(8);
    let mut num = Vec::with_capacity(8);
    let mut data = Vec::with_capacity(8);
    for i in 0..n {
        let (s, m) = (byte(), byte());
        if max > 0 {
            assume(s as usize <= max && m as usize <= max);
        }
        seq.push(s);
        num.push(m);
        data.push(sym(1 + i * 2));
    }
    let mut j = Jb::new();
    for k in 0..5 {
        for i in 0..n {
            if (if i == 0 { pu(2) } else { pu(3) }) == k {
                icc_seg(&mut j, seq[i], num[i], &data[i]);
            }
        }
        pic.piece(&mut j, k);
    }
    let mut d = Decoder::new(&j.out[..]);
    let p = d.decode();
    match p {
        Ok(p) => pic.all(&p, 1),
        Err(_) => check(false, 1),
    }
    // consistent: all counts are n and every number from 1 to n is there
    let mut ok = true;
    for i in 0..n {
        ok &= num[i] as usize == n;
        let mut here = false;
        for k in 0..n {
            here |= seq[k] as usize == i + 1;
        }
        ok &= here;
    }
    let got = d.icc_profile();
    check(got.is_some() == ok, 2);
    if let Some(g) = got {
        let mut at = 0;
        for s in 1..=n {
            for i in 0..n {
                if seq[i] as usize == s {
                    check(g.len() >= at + data[i].len(), 3);
                    check_eq(&g[at..at + data[i].len()], &data[i], 3);
                    at += data[i].len();
                    break;
                }
            }
        }
        check(at == g.len(), 3);
        cover(1);
    } else {
        cover(2);
    }
}

/// C17.  params: chunks, chunk left out (or -1), order (0 forward, 1 backward)
pub fn h_iccmany() {
    let n = pu(0);
    let pic = Pic::new();
    let data = sym(n);
    let mut j = Jb::new();
    for k in 0..n {
        let i = if pu(2) == 0 { k } else { n - 1 - k };
        if i as i64 != param(1) {
            icc_seg(&mut j, (i + 1) as u8, n as u8, &data[i..i + 1]);
        }
    }
    for k in 0..5 {
        pic.piece(&mut j, k);
    }
    let mut d = Decoder::new(&j.out[..]);
    match d.decode() {
        Ok(p) => pic.all(&p, 1),
        Err(_) => check(false, 1),
    }
    match d.icc_profile() {
        Some(g) => {
            check(param(1) < 0 && n <= 255, 2);
            check_eq(&g, &data, 3);
            cover(1);
        }
        None => {
            check(param(1) >= 0 || n > 255, 2);
            cover(2);
        }
    }
}

/// C17.  params: place, length of an APP1 segment of any content, kind of a second one (0 none, 1 Exif,
/// 2 XMP), its place, its length
pub fn h_app1() {
    let pic = Pic::new();
    let a = sym(pu(1));
    let b = sym(pu(4));
    let mut second = Vec::with_capacity(64);
    match pu(2) {
        1 => second.extend_from_slice(b"Exif\0\0"),
        2 => second.extend_from_slice(b"http://ns.adobe.com/xap/1.0/\0"),
        _ => {}
    }
    for x in &b {
        second.push(*x);
    }
    let exif = a.len() >= 6 && a[..6] == *b"Exif\0\0";
    let xmp = a.len() >= 29 && a[..29] == *b"http://ns.adobe.com/xap/1.0/\0";
    if pu(2) != 0 {
        // one of each kind at most
        assume(!(exif && pu(2) == 1) && !(xmp && pu(2) == 2));
    }
    let mut j = Jb::new();
    for k in 0..5 {
        if pu(0) == k {
            j.seg(0xE1, &a);
        }
        if pu(2) != 0 && pu(3) == k {
            j.seg(0xE1, &second);
        }
        pic.piece(&mut j, k);
    }
    let mut d = Decoder::new(&j.out[..]);
    match d.decode() {
        Ok(p) => pic.all(&p, 1),
        Err(_) => check(false, 1),
    }
    let we: Option<&[u8]> = if exif {
        Some(&a[6..])
    } else if pu(2) == 1 {
        Some(&b)
    } else {
        None
    };
    let wx: Option<&[u8]> = if xmp {
        Some(&a[29..])
    } else if pu(2) == 2 {
        Some(&b)
    } else {
        None
    };
    check(d.exif_data().is_some() == we.is_some(), 2);
    check(d.xmp_data().is_some() == wx.is_some(), 3);
    if let (Some(w), Some(g)) = (we, d.exif_data()) {
        check_eq(g, w, 4);
        cover(1);
    }
    if let (Some(w), Some(g)) = (wx, d.xmp_data()) {
        check_eq(g, w, 5);
        cover(2);
    }
    check(d.icc_profile().is_none(), 6);
    cover(3);
}

/// C18.  params: kind, place, length.
/// 0: APPn of any content with any n; 1: COM; 2: fill bytes before the marker; 3: any other bytes;
/// 4: the byte pair FF 00
pub fn h_skip() {
    let (kind, place, n) = (pu(0), pu(1), pu(2));
    let pic = Pic::new();
    let mut j = Jb::new();
    for k in 0..5 {
        if k == place {
            if k == 4 {
                j.align();
            }
            match kind {
                0 => {
                    let m = 0xE0 + (byte() & 15);
                    let p = sym(n);
                    // an Adobe segment with an unknown transform is an error of its own
                    assume(!(m == 0xEE && n >= 12 && p[..6] == *b"Adobe\0" && p[11] > 2));
                    j.seg(m, &p);
                }
                1 => {
                    let p = sym(n);
                    j.seg(0xFE, &p);
                }
                2 => {
                    for _ in 0..n {
                        j.raw(&[0xFF]);
                    }
                }
                3 => {
                    let p = sym(n);
                    for b in &p {
                        assume(*b != 0xFF);
                    }
                    j.raw(&p);
                }
                _ => {
                    for _ in 0..n {
                        let b = byte();
                        assume(b != 0xFF);
                        j.raw(&[0xFF, 0, b]);
                    }
                }
            }
        }
        pic.piece(&mut j, k);
    }
    let p = must(&j.out, 1);
    pic.all(&p, 2);
    cover(1);
}

/// C18: long segments of bytes that look like markers.  params: marker, length
pub fn h_skiplong() {
    let n = pu(1);
    let pic = Pic::new();
    let mut p = vec![0xFFu8; n];
    let mut i = 1;
    while i < n {
        p[i] = 0xD9;
        i += 2;
    }
    if n > 4 {
        p[0] = byte();
        p[n - 1] = byte();
    }
    let mut j = Jb::new();
    j.seg(pu(0) as u8, &p);
    for k in 0..5 {
        pic.piece(&mut j, k);
    }
    let p = must(&j.out, 1);
    pic.all(&p, 2);
    cover(1);
}

/// C18: entropy-coded bytes that may be FF, stuffed.
/// params: components (blocks when refining), DC category (0: bits of a DC refinement scan), MCUs and
/// restart interval, fill bytes behind the scan
pub fn h_stuff() {
    let (n, t, r, fill) = (pu(0), pu(1) as u32, pu(2), pu(3));
    let mut j = Jb::new();
    j.nostuff = false;
    let a;
    if t == 0 {
        j.dqt_flat(0, 64);
        if r > 0 {
            j.dri(r as u16);
        }
        // eight blocks per row
        let (w, h) = if n > 16 { (8, n / 8) } else { (n, 1) };
        j.sof(2, 8, 8 * w as u16, 8 * h as u16, &[c11(1)]);
        a = j.dht_lens(0, 0, &[1], &[0]);
        j.sos(&[(1, 0, 0)], 0, 0, 0, 1);
        for i in 0..n {
            if r > 0 && i > 0 && i % r == 0 {
                j.rst((i / r - 1) as u8);
            }
            j.code(&a, 0);
        }
        j.align();
        j.sos(&[(1, 0, 0)], 0, 0, 1, 0);
        let mut want = Vec::with_capacity(32);
        for i in 0..n {
            if r > 0 && i > 0 && i % r == 0 {
                j.rst((i / r - 1) as u8);
            }
            let b = bit();
            j.bits(b, 1);
            want.push(128 + 8 * b as u8);
        }
        j.align();
        for _ in 0..fill {
            j.raw(&[0xFF]);
        }
        let p = must(&j.end(), 1);
        check(p.len() == 64 * n, 1);
        for i in 0..n {
            let at = i / w * 64 * w + i % w * 8;
            check_eq(&[p[at], p[at + 7]], &[want[i]; 2], 2);
        }
        cover(1);
        return;
    }
    j.dqt_flat(0, 1);
    if r > 0 {
        j.dri(1);
    }
    let mut comps = Vec::with_capacity(4);
    let mut sc = Vec::with_capacity(4);
    for i in 0..n {
        let id = if n == 3 { RGB[i] } else { i as u8 + 1 };
        comps.push(c11(id));
        sc.push((id, 0, 0));
    }
    let m = r.max(1);
    j.sof(0, 8, 8 * m as u16, 8, &comps);
    let d = j.dht_lens(0, 0, &[1], &[t as u8]);
    let a = j.dht_lens(1, 0, &[1], &[0]);
    j.sos(&sc, 0, 63, 0, 0);
    let mut want = Vec::with_capacity(16);
    for i in 0..m {
        if i > 0 {
            j.rst((i - 1) as u8);
        }
        for _ in 0..n {
            let e = u16v() as u32 & ((1 << t) - 1);
            j.code(&d, t as u8);
            j.bits(e, t);
            j.code(&a, 0);
            want.push(ext(e, t));
        }
    }
    j.align();
    for _ in 0..fill {
        j.raw(&[0xFF]);
    }
    let v = j.end();
    let p = if n == 4 { must_with(&v, jpeg_decoder::ColorTransform::None, 1) } else { must(&v, 1) };
    check(p.len() == 64 * m * n, 1);
    for i in 0..m * n {
        let at = i / n * 8 * n + i % n;
        check_affine(p[at] as i32, &[want[i]], &[0.125], 128.0, 0.0, 255.0, 1.0, 2);
        check_affine(p[at + 7 * n] as i32, &[want[i]], &[0.125], 128.0, 0.0, 255.0, 1.0, 2);
    }
    cover(1);
}

/// C18: reading stops right behind the end-of-image marker.
/// params: kind (0 baseline, 1 progressive, 2 lossless, 3 restarts, 4 separate scans), bytes behind, fill bytes before
pub fn h_stop() {
    let (kind, extra, fill) = (pu(0), pu(1), pu(2));
    let mut j = Jb::new();
    let (b, d) = diff6();
    let want = if kind == 2 { ((128 + d) & 255) as u8 } else { clamp8(d + 128) };
    j.dqt_flat(0, 8);
    let n = if kind == 2 { 2 } else { 8 };
    match kind {
        1 => {
            j.sof(2, 8, 8, 8, &[c11(1)]);
            let t = flat_tables(&mut j);
            j.sos(&[(1, 0, 0)], 0, 0, 0, 0);
            j.code(&t.0, 6);
            j.bits(b, 6);
            j.align();
            j.sos(&[(1, 0, 0)], 1, 63, 0, 0);
            j.code(&t.1, 0);
        }
        2 => {
            j.sof(3, 8, 2, 2, &[c11(1)]);
            let t = j.dht_lens(0, 0, &[2, 2], &[6, 0]);
            j.sos(&[(1, 0, 0)], 1, 0, 0, 0);
            j.code(&t, 6);
            j.bits(b, 6);
            for _ in 0..3 {
                j.code(&t, 0);
            }
        }
        4 => {
            j.sof(0, 8, 8, 8, &[c11(82), c11(71), c11(66)]);
            let t = flat_tables(&mut j);
            for c in RGB {
                j.sos(&[(c, 0, 0)], 0, 63, 0, 0);
                flat_block(&mut j, &t, b);
                j.align();
            }
        }
        _ => {
            if kind == 3 {
                j.dri(1);
            }
            j.sof(0, 8, if kind == 3 { 16 } else { 8 }, 8, &[c11(1)]);
            let t = flat_tables(&mut j);
            j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
            flat_block(&mut j, &t, b);
            if kind == 3 {
                j.rst(0);
                flat_block(&mut j, &t, b);
            }
        }
    }
    j.align();
    for _ in 0..fill {
        j.raw(&[0xFF]);
    }
    j.eoi();
    let tail = sym(extra);
    j.raw(&tail);
    let mut r: &[u8] = &j.out;
    let p = match Decoder::new(&mut r).decode() {
        Ok(p) => p,
        Err(_) => {
            check(false, 1);
            return;
        }
    };
    check(p.len() == n * n * if kind == 3 { 2 } else if kind == 4 { 3 } else { 1 }, 1);
    for x in &p {
        check_eq(&[*x], &[want], 2);
    }
    check(r.len() == extra, 3);
    check_eq(r, &tail, 3);
    cover(1);
}

/// C18: a segment with another length than its content needs.
/// params: segment (0 DQT, 1 SOF, 2 DHT, 3 SOS, 4 DRI), components
pub fn h_len() {
    let (kind, nc) = (pu(0), pu(1));
    let l = u16v();
    let mut j = Jb::new();
    let mut at = 0;
    let mut comps = Vec::with_capacity(4);
    let mut sc = Vec::with_capacity(4);
    for i in 0..nc {
        comps.push(c11(i as u8 + 1));
        sc.push((i as u8 + 1, 0, 0));
    }
    if kind == 0 {
        at = j.out.len();
    }
    j.dqt_flat(0, 8);
    if kind == 4 {
        at = j.out.len();
    }
    j.dri(5);
    if kind == 1 {
        at = j.out.len();
    }
    j.sof(0, 8, 8, 8, &comps);
    if kind == 2 {
        at = j.out.len();
    }
    // one segment with both tables
    let mut p = vec![0u8; 36];
    p[1] = 1;
    p[17] = 6;
    p[18] = 0x10;
    p[19] = 1;
    j.seg(0xC4, &p);
    if kind == 3 {
        at = j.out.len();
    }
    j.sos(&sc, 0, 63, 0, 0);
    for _ in 0..nc {
        j.bits(32, 8);
    }
    j.eoi();
    let right = (j.out[at + 2] as u16) << 8 | j.out[at + 3] as u16;
    j.out[at + 2] = (l >> 8) as u8;
    j.out[at + 3] = l as u8;
    let r = dec(&j.out);
    check(r.is_ok() == (l == right), 1);
    if r.is_ok() {
        cover(1);
    }
    core::mem::forget(r);
}

/// C18: the lengths 0 and 1.  params: marker
pub fn h_len01() {
    let pic = Pic::new();
    let mut j = Jb::new();
    j.marker(pu(0) as u8);
    j.raw(&[0, byte() & 1]);
    for k in 0..5 {
        pic.piece(&mut j, k);
    }
    let r = dec(&j.out);
    check(r.is_err(), 1);
    core::mem::forget(r);
    cover(1);
}

/// C17: long contents.  params: kind (0 Exif, 1 XMP, 2 one ICC chunk, 3 two ICC chunks in reverse), length of the contents
pub fn h_metalong() {
    let (kind, n) = (pu(0), pu(1));
    let pic = Pic::new();
    let mut data = Vec::with_capacity(n);
    for i in 0..n {
        data.push((i % 251) as u8);
    }
    let (a, b) = (sym(3), sym(3));
    for i in 0..3 {
        data[i] = a[i];
        data[n - 1 - i] = b[i];
    }
    let mut j = Jb::new();
    let mut want = data.clone();
    match kind {
        0 => {
            let mut p = b"Exif\0\0".to_vec();
            p.extend_from_slice(&data);
            j.seg(0xE1, &p);
        }
        1 => {
            let mut p = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
            p.extend_from_slice(&data);
            j.seg(0xE1, &p);
        }
        2 => icc_seg(&mut j, 1, 1, &data),
        _ => {
            icc_seg(&mut j, 2, 2, &data[..n - 5]);
            icc_seg(&mut j, 1, 2, &data);
            want.extend_from_slice(&data[..n - 5]);
        }
    }
    for k in 0..5 {
        pic.piece(&mut j, k);
    }
    let mut d = Decoder::new(&j.out[..]);
    match d.decode() {
        Ok(p) => pic.all(&p, 1),
        Err(_) => check(false, 1),
    }
    let icc = d.icc_profile();
    let got: Option<&[u8]> = match kind {
        0 => d.exif_data(),
        1 => d.xmp_data(),
        _ => icc.as_deref(),
    };
    match got {
        Some(g) => {
            check(g.len() == want.len(), 2);
            check_eq(g, &want, 3);
            cover(1);
        }
        None => check(false, 4),
    }
    check(kind == 0 || d.exif_data().is_none(), 5);
    check(kind == 1 || d.xmp_data().is_none(), 6);
}
