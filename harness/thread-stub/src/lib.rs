//! Stand-in for the parts of std that start threads and pass messages between them.  Everything else is
//! std's.  A spawned closure is run when somebody waits for something that it may deliver: by then the
//! messages sent to it are queued.  Whatever std leaves to chance (which of several threads goes on first,
//! whether a message has arrived yet when a thread looks without waiting) is asked of `verif_sched`.
//! A thread which has to wait in the middle cannot be continued: the harness leaves such runs out.
pub use std::*;
extern "C" {
    fn verif_sched(n: usize, what: u32) -> usize;
    /// this run cannot go on
    fn verif_stuck();
}
fn sched(n: usize, what: u32) -> usize {
    if n < 2 {
        0
    } else {
        unsafe { verif_sched(n, what) }
    }
}
fn stuck() -> ! {
    unsafe { verif_stuck() };
    loop {
        core::hint::spin_loop()
    }
}

mod tasks {
    use std::cell::{Cell, UnsafeCell};
    pub type Task = (usize, Box<dyn FnOnce()>);
    pub struct Pool {
        pub list: UnsafeCell<Vec<Task>>,
        pub next: Cell<usize>,
        pub depth: Cell<usize>,
    }
    unsafe impl Sync for Pool {}
    pub static POOL: Pool = Pool { list: UnsafeCell::new(Vec::new()), next: Cell::new(1), depth: Cell::new(0) };
    #[allow(clippy::mut_from_ref)]
    pub fn list() -> &'static mut Vec<Task> {
        unsafe { &mut *POOL.list.get() }
    }
    pub fn add(f: Box<dyn FnOnce()>) -> usize {
        let id = POOL.next.get();
        POOL.next.set(id + 1);
        list().push((id, f));
        id
    }
    fn go(k: usize) {
        let (_, f) = list().remove(k);
        POOL.depth.set(POOL.depth.get() + 1);
        f();
        POOL.depth.set(POOL.depth.get() - 1);
    }
    /// runs one of the waiting tasks; false if there is none
    pub fn run_one() -> bool {
        let n = list().len();
        if n == 0 {
            return false;
        }
        go(super::sched(n, 1));
        true
    }
    /// runs this task if it has not been run yet
    pub fn run(id: usize) {
        if let Some(k) = list().iter().position(|t| t.0 == id) {
            go(k);
        }
    }
    /// whether the caller is a spawned thread
    pub fn inside() -> bool {
        POOL.depth.get() > 0
    }
}

pub mod thread {
    pub use std::thread::*;
    use super::tasks;
    use std::cell::RefCell;
    use std::io;
    use std::rc::Rc;
    #[derive(Debug, Default)]
    pub struct Builder;
    impl Builder {
        pub fn new() -> Builder {
            Builder
        }
        pub fn name(self, name: String) -> Builder {
            core::mem::forget(name);
            self
        }
        pub fn stack_size(self, _: usize) -> Builder {
            self
        }
        pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            Ok(spawn(f))
        }
    }
    pub struct JoinHandle<T> {
        id: usize,
        result: Rc<RefCell<Option<T>>>,
    }
    unsafe impl<T> Send for JoinHandle<T> {}
    unsafe impl<T> Sync for JoinHandle<T> {}
    impl<T> JoinHandle<T> {
        pub fn join(self) -> std::thread::Result<T> {
            tasks::run(self.id);
            match self.result.borrow_mut().take() {
                Some(v) => Ok(v),
                None => super::stuck(),
            }
        }
        pub fn is_finished(&self) -> bool {
            self.result.borrow().is_some()
        }
    }
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let result = Rc::new(RefCell::new(None));
        let r = result.clone();
        let id = tasks::add(Box::new(move || {
            let v = f();
            *r.borrow_mut() = Some(v);
        }));
        JoinHandle { id, result }
    }
    pub fn yield_now() {}
    pub fn sleep(_: std::time::Duration) {}
}

pub mod sync {
    pub use std::sync::*;
    pub mod mpsc {
        pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
        use crate::tasks;
        use std::cell::{Cell, RefCell};
        use std::collections::VecDeque;
        use std::rc::Rc;
        struct Chan<T> {
            queue: RefCell<VecDeque<T>>,
            senders: Cell<usize>,
            alive: Cell<bool>,
        }
        pub struct Sender<T>(Rc<Chan<T>>);
        pub struct Receiver<T>(Rc<Chan<T>>);
        pub type SyncSender<T> = Sender<T>;
        unsafe impl<T: Send> Send for Sender<T> {}
        unsafe impl<T: Send> Sync for Sender<T> {}
        unsafe impl<T: Send> Send for Receiver<T> {}
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Rc::new(Chan { queue: RefCell::new(VecDeque::new()), senders: Cell::new(1), alive: Cell::new(true) });
            (Sender(c.clone()), Receiver(c))
        }
        /// the bound is not modelled
        pub fn sync_channel<T>(_: usize) -> (Sender<T>, Receiver<T>) {
            channel()
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.senders.set(self.0.senders.get() + 1);
                Sender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.senders.set(self.0.senders.get() - 1);
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.alive.set(false);
            }
        }
        impl<T> Sender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                if !self.0.alive.get() {
                    return Err(SendError(t));
                }
                self.0.queue.borrow_mut().push_back(t);
                Ok(())
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                self.send(t).map_err(|e| TrySendError::Disconnected(e.0))
            }
        }
        impl<T> Receiver<T> {
            pub fn recv(&self) -> Result<T, RecvError> {
                loop {
                    if let Some(t) = self.0.queue.borrow_mut().pop_front() {
                        return Ok(t);
                    }
                    if self.0.senders.get() == 0 {
                        return Err(RecvError);
                    }
                    if tasks::inside() || !tasks::run_one() {
                        crate::stuck();
                    }
                }
            }
            pub fn try_recv(&self) -> Result<T, TryRecvError> {
                if !tasks::inside() {
                    while crate::sched(2, 3) == 1 && tasks::run_one() {}
                }
                let n = self.0.queue.borrow().len();
                if n > 0 && crate::sched(2, 3) == 0 {
                    return Ok(self.0.queue.borrow_mut().pop_front().unwrap());
                }
                Err(if n == 0 && self.0.senders.get() == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty })
            }
            pub fn recv_timeout(&self, _: std::time::Duration) -> Result<T, RecvTimeoutError> {
                self.try_recv().map_err(|e| match e {
                    TryRecvError::Empty => RecvTimeoutError::Timeout,
                    TryRecvError::Disconnected => RecvTimeoutError::Disconnected,
                })
            }
            pub fn iter(&self) -> Iter<'_, T> {
                Iter(self)
            }
            pub fn try_iter(&self) -> TryIter<'_, T> {
                TryIter(self)
            }
        }
        pub struct Iter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for Iter<'a, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        pub struct TryIter<'a, T>(&'a Receiver<T>);
        impl<'a, T> Iterator for TryIter<'a, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.try_recv().ok()
            }
        }
        impl<'a, T> IntoIterator for &'a Receiver<T> {
            type Item = T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> {
                self.iter()
            }
        }
        pub struct IntoIter<T>(Receiver<T>);
        impl<T> Iterator for IntoIter<T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                self.0.recv().ok()
            }
        }
        impl<T> IntoIterator for Receiver<T> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                IntoIter(self)
            }
        }
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
    }
}
