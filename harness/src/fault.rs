//! Readers that misbehave (C20), sequences of API calls (C21) and Motion-JPEG frames (C22).
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;
use jpeg_decoder::{CodingProcess, ColorTransform, Decoder, Error, PixelFormat};
use std::io;

/// A picture with something of everything.  The bytes of the entropy-coded data are symbolic but not FF.
pub fn sample(kind: usize) -> Vec<u8> {
    let mut j = Jb::new();
    match kind {
        0 | 1 => {
            // baseline, three components, metadata, restarts; 1: grey
            let nc = if kind == 0 { 3 } else { 1 };
            jfif(&mut j);
            j.seg(0xFE, b"comment");
            j.seg(0xE1, b"Exif\0\0data");
            j.seg(0xE2, b"ICC_PROFILE\0\x01\x01profile");
            j.dqt_flat(0, 8);
            let t = flat_tables(&mut j);
            let mut comps = Vec::with_capacity(3);
            let mut sc = Vec::with_capacity(3);
            for i in 0..nc {
                comps.push(Comp { id: i as u8 + 1, h: if i == 0 && kind == 0 { 2 } else { 1 }, v: 1, tq: 0 });
                sc.push((i as u8 + 1, 0, 0));
            }
            j.sof(0, 8, 17, 5, &comps);
            j.dri(1);
            j.sos(&sc, 0, 63, 0, 0);
            let m = if kind == 0 { 2 } else { 3 };
            for k in 0..m {
                for _ in 0..if kind == 0 { 4 } else { 1 } {
                    flat_block(&mut j, &t, diff6().0);
                }
                if k + 1 < m {
                    j.rst(k as u8);
                }
            }
        }
        2 => {
            // progressive
            j.dqt_flat(0, 8);
            j.sof(2, 8, 9, 8, &[c11(1)]);
            let t = flat_tables(&mut j);
            j.sos(&[(1, 0, 0)], 0, 0, 0, 1);
            for _ in 0..2 {
                j.code(&t.0, 6);
                j.bits(diff6().0, 6);
            }
            j.align();
            j.seg(0xFE, b"x");
            let a = j.dht_lens(1, 0, &[2, 2, 2], &[0x00, 0x01, 0x31]);
            j.sos(&[(1, 0, 0)], 1, 63, 0, 0);
            for x in [0x31, 0x01] {
                j.code(&a, x);
                j.bits(bit(), 1);
                j.code(&a, 0);
            }
            j.align();
            j.sos(&[(1, 0, 0)], 0, 0, 1, 0);
            j.bits(bit(), 1);
            j.bits(bit(), 1);
        }
        3 => {
            // lossless
            j.sof(3, 8, 3, 2, &[c11(1)]);
            let t = j.dht_lens(0, 0, &[1], &[6]);
            j.sos(&[(1, 0, 0)], 4, 0, 0, 0);
            for _ in 0..6 {
                j.code(&t, 6);
                j.bits(diff6().0, 6);
            }
        }
        5 => {
            // grey, one restart marker after the last MCU, fill bytes
            j.dqt_flat(0, 8);
            let t = flat_tables(&mut j);
            j.raw(&[0xFF, 0xFF]);
            j.sof(1, 8, 10, 9, &[c11(7)]);
            j.raw(&[0xFF]);
            j.sos(&[(7, 0, 0)], 0, 63, 0, 0);
            for _ in 0..4 {
                flat_block(&mut j, &t, diff6().0);
            }
            j.align();
            j.rst(3);
            j.rst(6);
            j.raw(&[0xFF, 0xFF]);
        }
        6 => {
            // lossless with restarts, and one after the last line
            j.sof(3, 8, 2, 3, &[c11(1)]);
            let t = j.dht_lens(0, 0, &[1], &[6]);
            j.dri(2);
            j.sos(&[(1, 0, 0)], 5, 0, 0, 0);
            for k in 0..3 {
                for _ in 0..2 {
                    j.code(&t, 6);
                    j.bits(diff6().0, 6);
                }
                j.align();
                j.rst(k);
            }
        }
        7 => {
            // CMYK with every other kind of segment, extraneous bytes and stuffing
            adobe(&mut j, 0);
            j.seg(0xE1, b"http://ns.adobe.com/xap/1.0/\0packet");
            j.seg(0xED, b"Photoshop 3.0\08BIM");
            j.seg(0xE0, b"JFXX\0\x10");
            j.seg(0xE5, &[0u8; 20]);
            j.seg(0xFE, &[]);
            j.raw(&[0, 0x12, 0x34]);
            j.dqt(0, 1, &[8; 64]);
            j.dqt_flat(3, 4);
            let _ = flat_tables(&mut j);
            j.nostuff = false;
            let d = j.dht_lens(0, 1, &[1, 2, 2], &[0, 1, 8]);
            let a = j.dht_lens(1, 1, &[1], &[0]);
            j.sof(1, 8, 8, 8, &[Comp { id: 1, h: 1, v: 1, tq: 0 }, Comp { id: 2, h: 1, v: 1, tq: 3 }, Comp { id: 3, h: 1, v: 1, tq: 0 }, Comp { id: 4, h: 1, v: 1, tq: 3 }]);
            j.seg(0xE2, b"ICC_PROFILE\0\x01\x01p");
            j.sos(&[(1, 1, 1), (2, 1, 1), (3, 1, 1), (4, 1, 1)], 0, 63, 0, 0);
            for k in 0..4 {
                if k == 2 {
                    j.code(&d, 1);
                    j.bits(bit(), 1);
                } else {
                    j.code(&d, 8);
                    j.bits(255, 8);
                }
                j.code(&a, 0);
            }
        }
        _ => {
            // separate scans, table redefinitions in between
            j.dqt_flat(0, 8);
            j.sof(0, 8, 8, 8, &[c11(82), c11(71), c11(66)]);
            let t = flat_tables(&mut j);
            for c in RGB {
                j.sos(&[(c, 0, 0)], 0, 63, 0, 0);
                flat_block(&mut j, &t, diff6().0);
                j.align();
                j.dqt_flat(0, 8);
            }
        }
    }
    j.end()
}

struct Faulty<'a> {
    data: &'a [u8],
    pos: usize,
    chunk: usize,
    reads: usize,
    at: usize,
    fault: usize,
    hit: &'a core::cell::Cell<bool>,
}
impl<'a> io::Read for Faulty<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let r = self.reads;
        self.reads += 1;
        let mut n = buf.len().min(self.chunk).min(self.data.len() - self.pos);
        if self.fault != 0 && r == self.at {
            match self.fault {
                1 => return Err(io::ErrorKind::Interrupted.into()),
                2 => {
                    self.hit.set(true);
                    return Err(io::ErrorKind::TimedOut.into());
                }
                3 => n = n.min(1),
                // Interrupted again and again
                _ => {
                    if self.fault < 7 {
                        self.fault += 1;
                        self.reads -= 1;
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                }
            }
        }
        for i in 0..n {
            buf[i] = self.data[self.pos + i];
        }
        self.pos += n;
        Ok(n)
    }
}

/// C20.  params: picture, bytes per read, fault (0 none, 1 one interruption, 2 an error, 3 one short read,
/// 4 four interruptions in a row), reads, ask for the header first.  The read at which it happens is symbolic.
pub fn h_reader() {
    let v = sample(pu(0));
    let fault = pu(2);
    let at = u16v() as usize;
    if fault != 0 {
        assume(at < pu(3));
    } else {
        assume(at == 0);
    }
    let want = must(&v, 1);
    let hit = core::cell::Cell::new(false);
    let mut d = Decoder::new(Faulty { data: &v, pos: 0, chunk: pu(1), reads: 0, at, fault, hit: &hit });
    if pu(4) == 1 {
        if let Err(e) = d.read_info() {
            check(fault == 2, 2);
            check(is_timeout(&e), 3);
            core::mem::forget(e);
            cover(2);
            return;
        }
    }
    match d.decode() {
        Ok(p) => {
            check(!hit.get(), 7);
            check(p.len() == want.len(), 4);
            check_eq(&p, &want, 4);
            cover(1);
        }
        Err(e) => {
            check(fault == 2, 5);
            check(is_timeout(&e), 6);
            core::mem::forget(e);
            cover(2);
        }
    }
}
fn is_timeout(e: &Error) -> bool {
    match e {
        Error::Io(e) => e.kind() == io::ErrorKind::TimedOut,
        _ => false,
    }
}

/// C20: every proper prefix.  params: picture, bytes per read
pub fn h_trunc() {
    let v = sample(pu(0));
    let want = must(&v, 1);
    let n = choice(v.len());
    let hit = core::cell::Cell::new(false);
    let mut d = Decoder::new(Faulty { data: &v[..n], pos: 0, chunk: pu(1), reads: 0, at: 0, fault: 0, hit: &hit });
    match d.decode() {
        Ok(p) => {
            check(p.len() == want.len(), 2);
            check_eq(&p, &want, 2);
            cover(1);
        }
        Err(e) => {
            core::mem::forget(e);
            cover(2);
        }
    }
}

/// C21.  params: picture, number of calls before the last.  Which calls they are is a choice.
pub fn h_api() {
    let (kind, n) = (pu(0), pu(1));
    let v = sample(kind);
    let (w, h) = [(17usize, 5usize), (17, 5), (9, 8), (3, 2), (8, 8), (10, 9), (2, 3), (8, 8)][kind];
    let nc = [3, 1, 1, 1, 3, 1, 1, 4][kind];
    let icc = kind < 2 || kind == 7;
    let mut d = Decoder::new(&v[..]);
    let mut scale: Option<(u16, u16)> = None;
    let mut ct: Option<ColorTransform> = None;
    let mut known = false;
    for _ in 0..n {
        match choice(6) {
            0 => {
                check(d.read_info().is_ok(), 1);
                known = true;
            }
            1 => {
                let s = pick(&[(1u16, 1u16), (4, 2), (9, 3), (300, 300)]);
                match d.scale(s.0, s.1) {
                    Ok(o) => {
                        let i = d.info().unwrap();
                        check(i.width == o.0 && i.height == o.1, 2);
                    }
                    Err(_) => check(false, 2),
                }
                scale = Some(s);
                known = true;
            }
            2 => {
                let t = match nc {
                    3 => pick(&[ColorTransform::RGB, ColorTransform::YCbCr]),
                    4 => pick(&[ColorTransform::CMYK, ColorTransform::YCCK, ColorTransform::None]),
                    _ => ColorTransform::Grayscale,
                };
                d.set_color_transform(t);
                ct = Some(t);
            }
            3 => {
                let (e, x, i) = (d.exif_data().is_some(), d.xmp_data().is_some(), d.icc_profile().is_some());
                check(x == (known && kind == 7), 3);
                check(e == (known && kind < 2), 3);
                check(i == (known && kind < 2), 3);
            }
            4 => d.set_max_decoding_buffer_size(1 << 20),
            _ => {
                check(d.info().is_some() == known, 4);
                if let Some(i) = d.info() {
                    if scale.is_none() {
                        check(i.width as usize == w && i.height as usize == h, 4);
                    }
                    check(i.coding_process == process(kind) && i.pixel_format == format(nc), 4);
                }
            }
        }
    }
    // the same, in one fixed order
    let mut e = Decoder::new(&v[..]);
    if let Some(t) = ct {
        e.set_color_transform(t);
    }
    if let Some(s) = scale {
        check(e.scale(s.0, s.1).is_ok(), 5);
    }
    let (p, q) = (d.decode(), e.decode());
    match (p, q) {
        (Ok(p), Ok(q)) => {
            check_eq(&p, &q, 6);
            let i = d.info().unwrap();
            check(p.len() == i.width as usize * i.height as usize * nc, 7);
            check(d.exif_data() == if kind < 2 { Some(&b"data"[..]) } else { None }, 8);
            check(d.xmp_data() == if kind == 7 { Some(&b"packet"[..]) } else { None }, 8);
            check(d.icc_profile().is_some() == icc, 8);
            check(i.coding_process == process(kind) && i.pixel_format == format(nc), 8);
            // asking again changes nothing
            check(d.read_info().is_ok(), 9);
            let i2 = d.info().unwrap();
            check(i2.width == i.width && i2.height == i.height, 9);
            cover(1);
        }
        _ => check(false, 6),
    }
}

fn process(kind: usize) -> CodingProcess {
    match kind {
        2 => CodingProcess::DctProgressive,
        3 | 6 => CodingProcess::Lossless,
        _ => CodingProcess::DctSequential,
    }
}
fn format(nc: usize) -> PixelFormat {
    match nc {
        1 => PixelFormat::L8,
        3 => PixelFormat::RGB24,
        _ => PixelFormat::CMYK32,
    }
}

/// Tables K.3 to K.6 of T.81: number of codes of each length, and the values.
const DC_COUNTS: [[u8; 16]; 2] = [[0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0]];
const AC_COUNTS: [[u8; 16]; 2] = [[0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7D], [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77]];
/// The values of code lengths below 16; the rest follow in ascending order.
const AC_HEAD: [&[u8]; 2] = [
    &[
        0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61, 0x07, 0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xA1, 0x08, 0x23, 0x42, 0xB1, 0xC1, 0x15, 0x52, 0xD1, 0xF0,
        0x24, 0x33, 0x62, 0x72, 0x82,
    ],
    &[
        0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61, 0x71, 0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xA1, 0xB1, 0xC1, 0x09, 0x23, 0x33, 0x52, 0xF0, 0x15,
        0x62, 0x72, 0xD1, 0x0A, 0x16, 0x24, 0x34, 0xE1, 0x25, 0xF1,
    ],
];
fn std_table(class: usize, id: usize) -> ([u8; 16], Vec<u8>) {
    let mut vals = Vec::with_capacity(162);
    if class == 0 {
        for i in 0..12 {
            vals.push(i);
        }
        return (DC_COUNTS[id], vals);
    }
    for v in AC_HEAD[id] {
        vals.push(*v);
    }
    // every pair of run 0..15 and size 1..10 not yet there
    for s in 0..160usize {
        let v = ((s / 10) as u8) << 4 | (s % 10 + 1) as u8;
        let mut seen = false;
        for x in AC_HEAD[id] {
            seen |= *x == v;
        }
        if !seen {
            vals.push(v);
        }
    }
    (AC_COUNTS[id], vals)
}
fn huff_of(t: &([u8; 16], Vec<u8>)) -> Huff {
    let mut lens = Vec::with_capacity(162);
    for l in 0..16 {
        for _ in 0..t.0[l] {
            lens.push(l as u8 + 1);
        }
    }
    Huff::canon(&lens, &t.1)
}

/// C22.  params: tables used (dc*2+ac), what is defined explicitly (bits: dc0, ac0, dc1, ac1), AVI1 (0 no,
/// 1 first, 2 after the frame), first and number of the AC symbols tried (one path each),
/// components (the others use the other tables).  The explicit tables are the other destination's.
pub fn h_mjpeg() {
    let (td, ta) = (pu(0) >> 1, pu(0) & 1);
    let def = pu(1);
    let avi = pu(2);
    let std: [_; 4] = [std_table(0, 0), std_table(1, 0), std_table(0, 1), std_table(1, 1)];
    let used = |class: usize, id: usize| if def >> (id * 2 + class) & 1 == 1 { 1 - id } else { id };
    let dt = huff_of(&std[used(0, td) * 2]);
    let at = huff_of(&std[used(1, ta) * 2 + 1]);
    let nc = pu(5);
    let dt2 = huff_of(&std[used(0, 1 - td) * 2]);
    let at2 = huff_of(&std[used(1, 1 - ta) * 2 + 1]);
    let i = pu(3) + choice(pu(4));
    let cat = (i % 12) as u8;
    let sym = std[ta * 2 + 1].1[i % 162];
    let dc = u16v() as u32 & ((1 << cat) - 1);
    let size = (sym & 15) as u32;
    let ac = u16v() as u32 & ((1 << size) - 1);
    let make = |plain: bool| {
        let mut j = Jb::new();
        j.nostuff = false;
        if !plain && avi == 1 {
            j.seg(0xE0, b"AVI1\0\0\0\0\0\0\0\0\0\0");
        }
        j.dqt_flat(0, 1);
        if nc == 1 {
            j.sof(0, 8, 8, 8, &[c11(1)]);
        } else {
            j.sof(0, 8, 8, 8, &[c11(82), c11(71), c11(66)]);
        }
        if !plain && avi == 2 {
            j.seg(0xE0, b"AVI1\0");
        }
        for k in 0..4 {
            if plain || def >> k & 1 == 1 {
                let t = &std[if plain { used(k & 1, k >> 1) * 2 + (k & 1) } else { (1 - (k >> 1)) * 2 + (k & 1) }];
                j.dht((k & 1) as u8, (k >> 1) as u8, &t.0, &t.1);
            }
        }
        if nc == 1 {
            j.sos(&[(1, td as u8, ta as u8)], 0, 63, 0, 0);
        } else {
            let (u, w) = (1 - td as u8, 1 - ta as u8);
            j.sos(&[(82, td as u8, ta as u8), (71, u, ta as u8), (66, u, w)], 0, 63, 0, 0);
        }
        for c in 0..nc {
            let d = if c == 0 { &dt } else { &dt2 };
            let a = if c < 2 { &at } else { &at2 };
            j.code(d, cat);
            j.bits(dc, cat as u32);
            if sym != 0 {
                j.code(a, sym);
                j.bits(ac, size);
            }
            j.code(a, 0);
        }
        j.end()
    };
    let v = make(false);
    let missing = nc == 3 && def != 15 || def >> (td * 2) & 1 == 0 || def >> (ta * 2 + 1) & 1 == 0;
    if avi == 0 && missing {
        let r = dec(&v);
        check(r.is_err(), 1);
        core::mem::forget(r);
        cover(2);
        return;
    }
    let p = must(&v, 2);
    let q = must(&make(true), 3);
    check_eq(&p, &q, 4);
    cover(1);
}

/// C22: table numbers 2 and 3 have no default.  params: AVI1
pub fn h_mjpeg23() {
    let t = byte() & 0x33;
    assume(t & 0x22 != 0);
    let mut j = Jb::new();
    j.seg(0xE0, b"AVI1\0");
    j.dqt_flat(0, 1);
    j.sof(0, 8, 8, 8, &[c11(1)]);
    j.sos(&[(1, t >> 4, t & 15)], 0, 63, 0, 0);
    j.bits(0, 8);
    let r = dec(&j.end());
    check(r.is_err(), 1);
    core::mem::forget(r);
    cover(1);
}
