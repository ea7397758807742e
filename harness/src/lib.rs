#![allow(clippy::missing_safety_doc)]
pub mod jb;
pub mod prim;
pub mod ut;
pub mod geom;
pub mod lossless;
pub mod meta;
pub mod fault;
pub mod huff;
pub mod block;
pub mod prog;
pub mod color;
pub mod up;
pub mod robust;
pub mod scan;
pub mod sched;
pub mod entries;
pub use entries::lookup;

#[no_mangle]
pub extern "C" fn h_empty_string(out: *mut String) {
    unsafe { out.write(String::new()) }
}

pub fn dct_basis(n: usize, x: usize, u: usize) -> f64 {
    // cos((2x+1) u pi / 2n) * c(u) for an n-point inverse DCT of a block coded with 8x8 scaling
    COS[n.trailing_zeros() as usize][x][u]
}
include!("cos.rs");
