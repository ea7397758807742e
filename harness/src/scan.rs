//! Scans: restart intervals, interleaving, progressive passes.
use crate::jb::*;
use crate::prim::*;
use crate::ut::*;

fn samples(p: &[Plane], w: usize, h: usize, f: &[(usize, usize)], hm: usize, vm: usize) -> Vec<u8> {
    // only for factors equal to the maxima or images compared before upsampling
    let nc = p.len();
    let mut e = Vec::with_capacity(w * h * nc);
    for y in 0..h {
        for x in 0..w {
            for c in 0..nc {
                let _ = (f, hm, vm);
                e.push(p[c].at(x / 8, y / 8));
            }
        }
    }
    e
}

/// C13.  params: w, h, components (1 or 3), interval, interleaved
pub fn h_restart() {
    let (w, h, nc, r, inter) = (pu(0), pu(1), pu(2), pu(3), pu(4));
    let comps = if nc == 1 { vec![c11(1)] } else { vec![c11(82), c11(71), c11(66)] };
    let mut j = Jb::new();
    j.dqt_flat(0, 8);
    j.sof(0, 8, w as u16, h as u16, &comps);
    let t = flat_tables(&mut j);
    if r > 0 {
        j.dri(r as u16);
    }
    let (bw, bh) = (cdiv(w, 8), cdiv(h, 8));
    let mut planes;
    if inter == 1 {
        let mut sc = Vec::with_capacity(4);
        let mut f = Vec::with_capacity(4);
        for c in &comps {
            sc.push((c.id, 0, 0));
            f.push((1, 1));
        }
        j.sos(&sc, 0, 63, 0, 0);
        planes = flat_mcus(&mut j, &t, &f, bw, bh, r);
    } else {
        planes = Vec::with_capacity(4);
        for (i, c) in comps.iter().enumerate() {
            // the interval may be redefined between scans
            let mut rr = r;
            if i > 0 && param(5) == 1 {
                rr = i - 1;
                j.dri(rr as u16);
            }
            let mut p = Plane::new(bw, bh);
            j.sos(&[(c.id, 0, 0)], 0, 63, 0, 0);
            flat_scan(&mut j, &t, &mut p, bw, bh, rr);
            planes.push(p);
        }
    }
    let v = j.end();
    let out = must(&v, 1);
    let e = samples(&planes, w, h, &[], 1, 1);
    check(out.len() == e.len(), 2);
    check_eq(&out, &e, 3);
    cover(1);
}

/// C13: the marker found at a restart point decides.  params: number of correct markers before it
pub fn h_rstmark() {
    let k = pu(0);
    let mut j = Jb::new();
    j.dqt_flat(0, 8);
    j.sof(0, 8, 8 * (k as u16 + 2), 8, &[c11(1)]);
    let t = flat_tables(&mut j);
    j.dri(1);
    j.sos(&[(1, 0, 0)], 0, 63, 0, 0);
    let m = byte();
    for i in 0..k + 2 {
        if i > 0 {
            if i == k + 1 {
                j.marker(m);
            } else {
                j.rst((i - 1) as u8);
            }
        }
        let (b, _) = diff6();
        flat_block(&mut j, &t, b);
    }
    let v = j.end();
    // 0xFF fill bytes before the marker, or a stuffed zero, are other streams
    assume(m != 0xFF && m != 0);
    let r = dec(&v);
    let want = m == 0xD0 + (k % 8) as u8;
    check(r.is_ok() == want, 1);
    cover(if want { 1 } else { 2 });
}


/// C13: an interval which no scan reaches changes nothing; one which is reached is an error without its marker.
/// params: w, h, components, interleaved
pub fn h_dri() {
    let (w, h, nc, inter) = (pu(0), pu(1), pu(2), pu(3));
    let r = u16v();
    let comps = if nc == 1 { vec![c11(1)] } else { vec![c11(82), c11(71), c11(66)] };
    let mut j = Jb::new();
    j.dqt_flat(0, 8);
    j.sof(0, 8, w as u16, h as u16, &comps);
    let t = flat_tables(&mut j);
    j.dri(r);
    let (bw, bh) = (cdiv(w, 8), cdiv(h, 8));
    let mut planes = Vec::with_capacity(4);
    if inter == 1 {
        let mut sc = Vec::with_capacity(4);
        let mut f = Vec::with_capacity(4);
        for c in &comps {
            sc.push((c.id, 0, 0));
            f.push((1, 1));
        }
        j.sos(&sc, 0, 63, 0, 0);
        planes = flat_mcus(&mut j, &t, &f, bw, bh, 0);
    } else {
        for c in comps.iter() {
            let mut p = Plane::new(bw, bh);
            j.sos(&[(c.id, 0, 0)], 0, 63, 0, 0);
            flat_scan(&mut j, &t, &mut p, bw, bh, 0);
            planes.push(p);
        }
    }
    let v = j.end();
    let out = dec(&v);
    if r == 0 || r as usize >= bw * bh {
        match out {
            Ok(o) => {
                let e = samples(&planes, w, h, &[], 1, 1);
                check(o.len() == e.len(), 2);
                check_eq(&o, &e, 3);
            }
            Err(_) => check(false, 1),
        }
        cover(1);
    } else {
        check(out.is_err(), 4);
        cover(2);
    }
}
