//! Runs one harness entry natively on a recorded input: `replay ENTRY --params a,b --inputs FILE [--emit]`.
//! Exit status: 0 all checks held, 10 a check failed, 11 an assumption is false, 101 panic.
use std::sync::Mutex;
struct S {
    inputs: Vec<u64>,
    pos: usize,
    params: Vec<i64>,
    emit: bool,
    out: Vec<u64>,
}
static ST: Mutex<Option<S>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut S) -> T) -> T {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().unwrap())
}
fn next() -> u64 {
    with(|s| {
        let v = s.inputs.get(s.pos).copied().unwrap_or(0);
        s.pos += 1;
        v
    })
}
fn fail(id: u32, what: &str) -> ! {
    println!("CHECK-FAILED {} {}", id, what);
    std::process::exit(10)
}
#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() as u8 }
    }
}
#[no_mangle]
pub extern "C" fn sym_choice(n: usize) -> usize {
    (next() as usize) % n.max(1)
}
#[no_mangle]
pub extern "C" fn sym_assume(b: bool) {
    if !b {
        println!("ASSUMPTION-FALSE");
        std::process::exit(11)
    }
}
#[no_mangle]
pub extern "C" fn sym_check(b: bool, id: u32) {
    if !b {
        fail(id, "")
    }
}
#[no_mangle]
pub extern "C" fn sym_check_cut(b: bool, _p: *const u8, _n: usize, id: u32) {
    sym_check(b, id)
}
#[no_mangle]
pub unsafe extern "C" fn sym_check_eq(p: *const u8, q: *const u8, n: usize, id: u32) {
    for i in 0..n {
        let (a, b) = (*p.add(i), *q.add(i));
        if a != b {
            fail(id, &format!("byte {} is {} where {} is required", i, a, b))
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_check_affine(v: i32, n: usize, xs: *const i32, cs: *const f64, c0: f64, lo: f64, hi: f64, tol: f64, id: u32) {
    let mut s = c0;
    for i in 0..n {
        s += *xs.add(i) as f64 * *cs.add(i);
    }
    let s = s.clamp(lo, hi);
    if (v as f64 - s).abs() > tol {
        fail(id, &format!("value {} where {} +- {} is required", v, s, tol))
    }
}
#[no_mangle]
pub extern "C" fn sym_cover(_id: u32) {}
#[no_mangle]
pub extern "C" fn sym_param(i: usize) -> i64 {
    with(|s| s.params.get(i).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_emit(v: u64) {
    with(|s| {
        if s.emit {
            s.out.push(v)
        }
    })
}
#[no_mangle]
pub extern "C" fn sym_is_engine() -> u32 {
    0
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = S { inputs: vec![], pos: 0, params: vec![], emit: false, out: vec![] };
    let mut entry = String::new();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--params" => {
                i += 1;
                s.params = a[i].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            }
            "--inputs" => {
                i += 1;
                let t = std::fs::read_to_string(&a[i]).unwrap();
                s.inputs = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            }
            "--emit" => s.emit = true,
            x => entry = x.to_string(),
        }
        i += 1;
    }
    let f = match harness::lookup(&entry) {
        Some(f) => f,
        None => {
            eprintln!("no entry {}", entry);
            std::process::exit(2)
        }
    };
    *ST.lock().unwrap() = Some(s);
    f();
    let out = with(|s| std::mem::take(&mut s.out));
    if !out.is_empty() {
        println!("{:?}", out);
    }
    println!("HELD");
}
