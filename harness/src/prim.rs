//! The interface to the solver.  Under the engine these are intrinsics; in the replay binary they
//! are ordinary functions reading a recorded counterexample.
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_choice(n: usize) -> usize;
    fn sym_assume(b: bool);
    fn sym_check(b: bool, id: u32);
    fn sym_check_eq(p: *const u8, q: *const u8, n: usize, id: u32);
    fn sym_check_cut(b: bool, p: *const u8, n: usize, id: u32);
    fn sym_check_affine(v: i32, n: usize, xs: *const i32, cs: *const f64, c0: f64, lo: f64, hi: f64, tol: f64, id: u32);
    fn sym_cover(id: u32);
    fn sym_param(i: usize) -> i64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_emit(v: u64);
    fn sym_is_engine() -> u32;
}

pub fn bytes(p: &mut [u8]) {
    unsafe { sym_bytes(p.as_mut_ptr(), p.len()) }
}
pub fn byte() -> u8 {
    let mut b = [0u8];
    bytes(&mut b);
    b[0]
}
pub fn u16v() -> u16 {
    let mut b = [0u8; 2];
    bytes(&mut b);
    u16::from_be_bytes(b)
}
/// A symbolic bit.
pub fn bit() -> u32 {
    (byte() & 1) as u32
}
/// One path per value below `n`.
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n) }
}
/// One of the listed values, one path each.
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choice(v.len())]
}
pub fn assume(b: bool) {
    unsafe { sym_assume(b) }
}
pub fn check(b: bool, id: u32) {
    unsafe { sym_check(b, id) }
}
pub fn check_eq(a: &[u8], b: &[u8], id: u32) {
    check(a.len() == b.len(), id);
    if a.len() == b.len() {
        unsafe { sym_check_eq(a.as_ptr(), b.as_ptr(), a.len(), id) }
    }
}
/// `check`, tried first for every value of the bytes `over` (whatever they are computed from).
pub fn check_over(b: bool, over: &[u8], id: u32) {
    unsafe { sym_check_cut(b, over.as_ptr(), over.len(), id) }
}
#[allow(clippy::too_many_arguments)]
pub fn check_affine(v: i32, xs: &[i32], cs: &[f64], c0: f64, lo: f64, hi: f64, tol: f64, id: u32) {
    assert!(xs.len() == cs.len());
    unsafe { sym_check_affine(v, xs.len(), xs.as_ptr(), cs.as_ptr(), c0, lo, hi, tol, id) }
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
static BASE: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
/// Makes the parameters from `n` on those of an entry called by another.
pub fn base(n: usize) {
    BASE.store(n, core::sync::atomic::Ordering::Relaxed)
}
pub fn param(i: usize) -> i64 {
    unsafe { sym_param(BASE.load(core::sync::atomic::Ordering::Relaxed) + i) }
}
pub fn pu(i: usize) -> usize {
    param(i) as usize
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn emit(v: u64) {
    unsafe { sym_emit(v) }
}
pub fn is_engine() -> bool {
    unsafe { sym_is_engine() != 0 }
}
