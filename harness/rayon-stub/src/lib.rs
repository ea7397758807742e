//! Stand-in for the part of rayon's interface that a worker may use.  Every decision rayon's scheduler
//! would make (which spawned task runs next, and whether before the spawning function goes on; in which
//! order the items of a parallel iterator are processed) is asked of `verif_sched`, so the symbolic
//! engine goes through all of them.  Tasks run one at a time: they share only what safe Rust lets them.
extern "C" {
    /// a number below n. what: 0 = run one of n-1 pending tasks before going on (0 = none),
    /// 1 = next of n tasks at the end of a scope, 2 = next of n items, 3 = which half of a join first,
    /// 4 = whether an item starts a new split
    fn verif_sched(n: usize, what: u32) -> usize;
}
fn sched(n: usize, what: u32) -> usize {
    if n < 2 {
        0
    } else {
        unsafe { verif_sched(n, what) }
    }
}

type Task<'s> = Box<dyn FnOnce(&Scope<'s>) + 's>;
pub struct Scope<'s> {
    pending: std::cell::RefCell<Vec<Task<'s>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.pending.borrow_mut().push(Box::new(f));
        loop {
            let n = self.pending.borrow().len();
            let k = sched(n + 1, 0);
            if k == 0 {
                break;
            }
            let t = self.pending.borrow_mut().remove(k - 1);
            t(self);
        }
    }
    pub fn spawn_fifo<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.spawn(f)
    }
    pub fn spawn_broadcast<F: Fn(&Scope<'s>, ()) + Send + 's>(&self, f: F) {
        self.spawn(move |s| f(s, ()))
    }
    fn finish(&self) {
        loop {
            let n = self.pending.borrow().len();
            if n == 0 {
                break;
            }
            let k = sched(n, 1);
            let t = self.pending.borrow_mut().remove(k);
            t(self);
        }
    }
}
pub type ScopeFifo<'s> = Scope<'s>;
pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope { pending: std::cell::RefCell::new(Vec::new()) };
    let r = f(&s);
    s.finish();
    r
}
pub fn in_place_scope_fifo<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    in_place_scope(f)
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R + Send, R: Send>(f: F) -> R {
    in_place_scope(f)
}
pub fn scope_fifo<'s, F: FnOnce(&Scope<'s>) -> R + Send, R: Send>(f: F) -> R {
    in_place_scope(f)
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
{
    if sched(2, 3) == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}
pub fn current_num_threads() -> usize {
    4
}
pub fn max_num_threads() -> usize {
    4
}
pub fn current_thread_index() -> Option<usize> {
    None
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<R, F: FnOnce() -> R>(&self, f: F) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        4
    }
    pub fn in_place_scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(&self, f: F) -> R {
        in_place_scope(f)
    }
    pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(&self, f: F) -> R {
        in_place_scope(f)
    }
}

pub mod iter {
    use super::sched;
    /// `drive` hands every item with its index to the consumer, in the order the scheduler picks.
    pub trait ParallelIterator: Sized {
        type Item;
        fn drive(self, f: &mut dyn FnMut(usize, Self::Item));

        fn slots(self) -> Vec<Self::Item> {
            let mut v: Vec<(usize, Self::Item)> = Vec::new();
            self.drive(&mut |i, x| {
                let p = v.iter().position(|e| e.0 > i).unwrap_or(v.len());
                v.insert(p, (i, x));
            });
            v.into_iter().map(|x| x.1).collect()
        }
        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            self.drive(&mut |_, x| f(x))
        }
        fn for_each_with<T: Clone, F: Fn(&mut T, Self::Item)>(self, init: T, f: F) {
            self.for_each_init(move || init.clone(), f)
        }
        fn for_each_init<T, I: Fn() -> T, F: Fn(&mut T, Self::Item)>(self, init: I, f: F) {
            let mut t = init();
            self.drive(&mut |_, x| {
                if sched(2, 4) == 1 {
                    t = init();
                }
                f(&mut t, x)
            })
        }
        fn try_for_each<E, F: Fn(Self::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> {
            let mut r = Ok(());
            self.drive(&mut |_, x| {
                if r.is_ok() {
                    r = f(x)
                }
            });
            r
        }
        fn map<R, F: Fn(Self::Item) -> R>(self, f: F) -> Map<Self, F> {
            Map { p: self, f }
        }
        fn filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> Filter<Self, F> {
            Filter { p: self, f }
        }
        fn collect<C: std::iter::FromIterator<Self::Item>>(self) -> C {
            self.slots().into_iter().collect()
        }
        fn count(self) -> usize {
            self.slots().len()
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.slots().into_iter().sum()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.slots().into_iter().max()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.slots().into_iter().min()
        }
        fn any<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            let mut r = false;
            self.drive(&mut |_, x| r |= f(x));
            r
        }
        fn all<F: Fn(Self::Item) -> bool>(self, f: F) -> bool {
            let mut r = true;
            self.drive(&mut |_, x| r &= f(x));
            r
        }
        fn reduce<I: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: I, f: F) -> Self::Item {
            self.slots().into_iter().fold(id(), f)
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn enumerate(self) -> Enumerate<Self> {
            Enumerate { p: self }
        }
        fn zip<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter>
        where
            Z::Iter: IndexedParallelIterator,
        {
            Zip { a: self, b: z.into_par_iter() }
        }
        fn zip_eq<Z: IntoParallelIterator>(self, z: Z) -> Zip<Self, Z::Iter>
        where
            Z::Iter: IndexedParallelIterator,
        {
            self.zip(z)
        }
        fn take(self, n: usize) -> Par<std::vec::IntoIter<Self::Item>> {
            let mut v = self.slots();
            v.truncate(n);
            Par(v.into_iter())
        }
        fn skip(self, n: usize) -> Par<std::vec::IntoIter<Self::Item>> {
            let mut v = self.slots();
            v.drain(..n.min(v.len()));
            Par(v.into_iter())
        }
        fn rev(self) -> Par<std::vec::IntoIter<Self::Item>> {
            let mut v = self.slots();
            v.reverse();
            Par(v.into_iter())
        }
        fn collect_into_vec(self, out: &mut Vec<Self::Item>) {
            *out = self.slots()
        }
    }
    pub struct Par<I>(pub I);
    impl<I: Iterator> ParallelIterator for Par<I> {
        type Item = I::Item;
        fn drive(self, f: &mut dyn FnMut(usize, I::Item)) {
            let mut v: Vec<(usize, I::Item)> = self.0.enumerate().collect();
            while !v.is_empty() {
                let k = sched(v.len(), 2);
                let (i, x) = v.remove(k);
                f(i, x)
            }
        }
        fn slots(self) -> Vec<I::Item> {
            self.0.collect()
        }
    }
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub struct Map<P, F> {
        p: P,
        f: F,
    }
    impl<P: ParallelIterator, R, F: Fn(P::Item) -> R> ParallelIterator for Map<P, F> {
        type Item = R;
        fn drive(self, g: &mut dyn FnMut(usize, R)) {
            let f = self.f;
            self.p.drive(&mut |i, x| g(i, f(x)))
        }
    }
    impl<P: IndexedParallelIterator, R, F: Fn(P::Item) -> R> IndexedParallelIterator for Map<P, F> {}
    pub struct Filter<P, F> {
        p: P,
        f: F,
    }
    impl<P: ParallelIterator, F: Fn(&P::Item) -> bool> ParallelIterator for Filter<P, F> {
        type Item = P::Item;
        fn drive(self, g: &mut dyn FnMut(usize, P::Item)) {
            let f = self.f;
            self.p.drive(&mut |i, x| {
                if f(&x) {
                    g(i, x)
                }
            })
        }
    }
    pub struct Enumerate<P> {
        p: P,
    }
    impl<P: ParallelIterator> ParallelIterator for Enumerate<P> {
        type Item = (usize, P::Item);
        fn drive(self, g: &mut dyn FnMut(usize, (usize, P::Item))) {
            self.p.drive(&mut |i, x| g(i, (i, x)))
        }
    }
    impl<P: IndexedParallelIterator> IndexedParallelIterator for Enumerate<P> {}
    pub struct Zip<A, B> {
        a: A,
        b: B,
    }
    impl<A: ParallelIterator, B: ParallelIterator> ParallelIterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        fn drive(self, g: &mut dyn FnMut(usize, (A::Item, B::Item))) {
            let mut b: Vec<Option<B::Item>> = self.b.slots().into_iter().map(Some).collect();
            self.a.drive(&mut |i, x| {
                if i < b.len() {
                    if let Some(y) = b[i].take() {
                        g(i, (x, y))
                    }
                }
            })
        }
    }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> {}

    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<P: ParallelIterator> IntoParallelIterator for P {
        type Item = P::Item;
        type Iter = P;
        fn into_par_iter(self) -> P {
            self
        }
    }
    impl<T> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = Par<std::vec::IntoIter<T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    macro_rules! range {
        ($($t:ty)*) => {$(
            impl IntoParallelIterator for std::ops::Range<$t> {
                type Item = $t;
                type Iter = Par<std::ops::Range<$t>>;
                fn into_par_iter(self) -> Self::Iter {
                    Par(self)
                }
            }
        )*};
    }
    range! {usize u64 u32 u16 u8 i64 i32 i16}
    impl<'a, T> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut [T] {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> {
        type Item = &'a T;
        type Iter = Par<std::slice::Iter<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
        type Item = &'a mut T;
        type Iter = Par<std::slice::IterMut<'a, T>>;
        fn into_par_iter(self) -> Self::Iter {
            Par(self.iter_mut())
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoParallelIterator,
    {
        type Item = <&'a C as IntoParallelIterator>::Item;
        type Iter = <&'a C as IntoParallelIterator>::Iter;
        fn par_iter(&'a self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn par_iter_mut(&'a mut self) -> Self::Iter;
    }
    impl<'a, C: 'a + ?Sized> IntoParallelRefMutIterator<'a> for C
    where
        &'a mut C: IntoParallelIterator,
    {
        type Item = <&'a mut C as IntoParallelIterator>::Item;
        type Iter = <&'a mut C as IntoParallelIterator>::Iter;
        fn par_iter_mut(&'a mut self) -> Self::Iter {
            self.into_par_iter()
        }
    }
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge(self) -> Par<Self> {
            Par(self)
        }
    }
    impl<I: Iterator> ParallelBridge for I {}
}
pub mod slice {
    use super::iter::Par;
    pub trait ParallelSlice<T> {
        fn sl(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> {
            Par(self.sl().chunks(n))
        }
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>> {
            Par(self.sl().chunks_exact(n))
        }
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> {
            Par(self.sl().windows(n))
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn sl(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn slm(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> {
            Par(self.slm().chunks_mut(n))
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<std::slice::ChunksExactMut<'_, T>> {
            Par(self.slm().chunks_exact_mut(n))
        }
        fn par_rchunks_mut(&mut self, n: usize) -> Par<std::slice::RChunksMut<'_, T>> {
            Par(self.slm().rchunks_mut(n))
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn slm(&mut self) -> &mut [T] {
            self
        }
    }
}
pub mod prelude {
    pub use super::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelIterator,
    };
    pub use super::slice::{ParallelSlice, ParallelSliceMut};
}
