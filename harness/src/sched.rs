//! Task scheduling (C19).  `verif_sched` answers rayon-stub's questions according to the mode.
use crate::prim::*;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// tasks: 0 = at the end in order, 1 = any order, 2 = at the end in reverse, 3 = at once
static TASKS: AtomicUsize = AtomicUsize::new(0);
/// items: 0 = in order, 1 = any item first, 2 = reverse, 3 = any order, 4 = any item last
static ITEMS: AtomicUsize = AtomicUsize::new(0);
/// number of questions answered freely
static LEFT: AtomicUsize = AtomicUsize::new(0);
/// number of questions before those
static SKIP: AtomicUsize = AtomicUsize::new(0);
static ASKED: AtomicUsize = AtomicUsize::new(0);
static PICK: AtomicUsize = AtomicUsize::new(usize::MAX);

#[no_mangle]
pub extern "C" fn verif_sched(n: usize, what: u32) -> usize {
    ASKED.fetch_add(1, Relaxed);
    match what {
        0 | 1 => match TASKS.load(Relaxed) {
            1 if SKIP.load(Relaxed) > 0 => {
                SKIP.fetch_sub(1, Relaxed);
                0
            }
            1 if LEFT.load(Relaxed) > 0 => {
                LEFT.fetch_sub(1, Relaxed);
                choice(n)
            }
            2 if what == 1 => n - 1,
            3 if what == 0 => n - 1,
            _ => 0,
        },
        2 => match ITEMS.load(Relaxed) {
            1 => {
                if PICK.load(Relaxed) == usize::MAX {
                    PICK.store(0, Relaxed);
                    choice(n)
                } else {
                    0
                }
            }
            2 => n - 1,
            3 => choice(n),
            4 => {
                if PICK.load(Relaxed) == usize::MAX {
                    PICK.store(choice(n), Relaxed);
                }
                (PICK.load(Relaxed) == 0) as usize
            }
            _ => 0,
        },
        _ => choice(n),
    }
}
/// 4: the picked item stays at the front of the list until it is the only one
pub fn set(tasks: usize, items: usize, left: usize, skip: usize) {
    SKIP.store(skip, Relaxed);
    TASKS.store(tasks, Relaxed);
    ITEMS.store(items, Relaxed);
    LEFT.store(left, Relaxed);
    PICK.store(usize::MAX, Relaxed);
    ASKED.store(0, Relaxed);
}
pub fn asked() -> usize {
    ASKED.load(Relaxed)
}

/// C19.  params: entry, task mode, item mode, number of free answers about tasks, number of answers
/// before those, then the parameters of the entry
pub fn h_sched() {
    let (e, t, i, l, s) = (pu(0), pu(1), pu(2), pu(3), pu(4));
    set(t, i, l, s);
    base(5);
    match e {
        0 => crate::up::h_up(),
        1 => crate::scan::h_restart(),
        2 => crate::prog::h_prog(),
        _ => crate::geom::h_layout(),
    }
    if asked() > 0 {
        cover(2);
    }
}

/// thread-stub: a thread that would have to be continued later.
#[no_mangle]
pub extern "C" fn verif_stuck() {
    assume(false)
}
