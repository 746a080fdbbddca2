//! Stand-ins that put a few standard types under the harness's control:
//! locks and atomics announce themselves (so that a harness can run another
//! thread's operation at that point), spawned tasks and timers are handed to
//! the harness instead of a runtime. Without a harness they behave as usual
//! (except that spawned tasks wait to be polled).
#![allow(clippy::all)]
use ::std::cell::{Cell, RefCell};
use ::std::future::Future;
use ::std::pin::Pin;
use ::std::task::{Context, Poll, Waker};

/// one thread only
pub struct Solo<T>(pub T);
unsafe impl<T> Sync for Solo<T> {}
unsafe impl<T> Send for Solo<T> {}

static HOOK: Solo<Cell<Option<fn()>>> = Solo(Cell::new(None));
static HELD: Solo<Cell<usize>> = Solo(Cell::new(0));
/// what to run where another thread could come in between
pub fn set_hook(f: Option<fn()>) {
    HOOK.0.set(f)
}
/// another thread may run here, unless it could be stopped by a held lock
#[inline(never)]
pub fn point() {
    if HELD.0.get() == 0 {
        if let Some(f) = HOOK.0.get() {
            f()
        }
    }
}
pub type Task = Pin<Box<dyn Future<Output = ()>>>;
static TASKS: Solo<RefCell<Vec<Task>>> = Solo(RefCell::new(vec![]));
/// the tasks spawned since the last call
pub fn spawned() -> Vec<Task> {
    TASKS.0.take()
}
pub struct Timer {
    pub fired: Cell<bool>,
    pub waker: RefCell<Option<Waker>>,
    pub duration: ::std::time::Duration,
}
static TIMERS: Solo<RefCell<Vec<::std::rc::Rc<Timer>>>> = Solo(RefCell::new(vec![]));
/// all timers created since the last call
pub fn timers() -> Vec<::std::rc::Rc<Timer>> {
    TIMERS.0.take()
}
pub fn fire(t: &Timer) {
    t.fired.set(true);
    if let Some(w) = t.waker.take() {
        w.wake()
    }
}
pub struct JoinHandle<T>(::std::marker::PhantomData<T>);

pub mod futures_timer {
    use super::*;
    pub struct Delay(Solo<::std::rc::Rc<Timer>>);
    impl Delay {
        pub fn new(duration: ::std::time::Duration) -> Self {
            let t = ::std::rc::Rc::new(Timer { fired: Cell::new(false), waker: RefCell::new(None), duration });
            TIMERS.0.borrow_mut().push(t.clone());
            Delay(Solo(t))
        }
    }
    impl Future for Delay {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 .0.fired.get() {
                return Poll::Ready(());
            }
            *self.0 .0.waker.borrow_mut() = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
pub mod tokio {
    use super::*;
    pub use ::tokio::*;
    pub fn spawn<F: Future + Send + 'static>(f: F) -> JoinHandle<F::Output>
    where
        F::Output: Send + 'static,
    {
        TASKS.0.borrow_mut().push(Box::pin(async move {
            f.await;
        }));
        JoinHandle(::std::marker::PhantomData)
    }
    pub mod task {
        pub use super::spawn;
        pub use ::tokio::task::*;
    }
    /// a runtime of its own: what is spawned on it waits for the harness
    pub mod runtime {
        use super::*;
        pub use ::tokio::runtime::Handle;
        pub struct Builder(());
        impl Builder {
            pub fn new_multi_thread() -> Self {
                Builder(())
            }
            pub fn new_current_thread() -> Self {
                Builder(())
            }
            pub fn worker_threads(&mut self, _: usize) -> &mut Self {
                self
            }
            pub fn enable_all(&mut self) -> &mut Self {
                self
            }
            pub fn build(&mut self) -> ::std::io::Result<Runtime> {
                Ok(Runtime(()))
            }
        }
        pub struct Runtime(());
        type Slot<T> = Solo<::std::rc::Rc<(RefCell<Option<T>>, RefCell<Option<Waker>>)>>;
        pub struct JoinHandle<T>(Slot<T>);
        impl<T> Future for JoinHandle<T> {
            type Output = Result<T, ::tokio::task::JoinError>;
            fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                let slot = &self.0 .0;
                match slot.0.take() {
                    Some(v) => Poll::Ready(Ok(v)),
                    None => {
                        *slot.1.borrow_mut() = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
        }
        impl Runtime {
            pub fn spawn<F: Future + Send + 'static>(&self, f: F) -> JoinHandle<F::Output>
            where
                F::Output: Send + 'static,
            {
                let slot = ::std::rc::Rc::new((RefCell::new(None), RefCell::new(None::<Waker>)));
                let s = slot.clone();
                TASKS.0.borrow_mut().push(Box::pin(async move {
                    let v = f.await;
                    *s.0.borrow_mut() = Some(v);
                    if let Some(w) = s.1.take() {
                        w.wake()
                    }
                }));
                JoinHandle(Solo(slot))
            }
            pub fn shutdown_background(self) {}
        }
    }
    pub mod time {
        pub use ::tokio::time::*;
        pub fn sleep(d: ::std::time::Duration) -> crate::futures_timer::Delay {
            crate::futures_timer::Delay::new(d)
        }
    }
}
pub mod std {
    pub use ::std::*;
    pub mod sync {
        use crate::{point, HELD};
        pub use ::std::sync::*;
        pub mod atomic {
            pub use ::std::sync::atomic::*;
            use crate::point;
            macro_rules! atomic {
                ($n:ident, $t:ty, $($extra:ident)*) => {
                    #[derive(Debug, Default)]
                    pub struct $n(::std::sync::atomic::$n);
                    impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
                    impl $n {
                        pub const fn new(v: $t) -> Self { Self(::std::sync::atomic::$n::new(v)) }
                        pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                        pub fn into_inner(self) -> $t { self.0.into_inner() }
                        pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                        pub fn store(&self, v: $t, o: Ordering) { point(); self.0.store(v, o) }
                        pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); self.0.swap(v, o) }
                        pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, o, p) }
                        pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, o, p) }
                        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { point(); self.0.fetch_update(o, p, f) }
                        $( pub fn $extra(&self, v: $t, o: Ordering) -> $t { point(); self.0.$extra(v, o) } )*
                    }
                };
            }
            atomic!(AtomicBool, bool, fetch_and fetch_or fetch_xor fetch_nand);
            atomic!(AtomicUsize, usize, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
            atomic!(AtomicU64, u64, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
            atomic!(AtomicU32, u32, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
            atomic!(AtomicI64, i64, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
            atomic!(AtomicI32, i32, fetch_add fetch_sub fetch_max fetch_min fetch_and fetch_or fetch_xor);
        }
        /// counts a lock as held until dropped
        pub struct Guard<G>(::std::mem::ManuallyDrop<G>);
        impl<G> Guard<G> {
            fn new(g: G) -> Self {
                HELD.0.set(HELD.0.get() + 1);
                Guard(::std::mem::ManuallyDrop::new(g))
            }
        }
        impl<G> Drop for Guard<G> {
            fn drop(&mut self) {
                HELD.0.set(HELD.0.get() - 1);
                unsafe { ::std::mem::ManuallyDrop::drop(&mut self.0) }
            }
        }
        impl<G: ::std::ops::Deref> ::std::ops::Deref for Guard<G> {
            type Target = G::Target;
            fn deref(&self) -> &G::Target {
                &self.0
            }
        }
        impl<G: ::std::ops::DerefMut> ::std::ops::DerefMut for Guard<G> {
            fn deref_mut(&mut self) -> &mut G::Target {
                &mut self.0
            }
        }
        fn wrap<G>(r: LockResult<G>) -> LockResult<Guard<G>> {
            match r {
                Ok(g) => Ok(Guard::new(g)),
                Err(e) => Err(PoisonError::new(Guard::new(e.into_inner()))),
            }
        }
        fn try_wrap<G>(r: TryLockResult<G>) -> TryLockResult<Guard<G>> {
            match r {
                Ok(g) => Ok(Guard::new(g)),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(Guard::new(e.into_inner())))),
            }
        }
        pub type MutexGuard<'a, T> = Guard<::std::sync::MutexGuard<'a, T>>;
        pub type RwLockReadGuard<'a, T> = Guard<::std::sync::RwLockReadGuard<'a, T>>;
        pub type RwLockWriteGuard<'a, T> = Guard<::std::sync::RwLockWriteGuard<'a, T>>;
        #[derive(Debug, Default)]
        pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
        impl<T> From<T> for Mutex<T> {
            fn from(v: T) -> Self {
                Self::new(v)
            }
        }
        impl<T> Mutex<T> {
            pub const fn new(v: T) -> Self {
                Self(::std::sync::Mutex::new(v))
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.0.into_inner()
            }
        }
        impl<T: ?Sized> Mutex<T> {
            pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
                point();
                wrap(self.0.lock())
            }
            pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
                point();
                try_wrap(self.0.try_lock())
            }
            pub fn is_poisoned(&self) -> bool {
                self.0.is_poisoned()
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.0.get_mut()
            }
        }
        #[derive(Debug, Default)]
        pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
        impl<T> From<T> for RwLock<T> {
            fn from(v: T) -> Self {
                Self::new(v)
            }
        }
        impl<T> RwLock<T> {
            pub const fn new(v: T) -> Self {
                Self(::std::sync::RwLock::new(v))
            }
            pub fn into_inner(self) -> LockResult<T> {
                self.0.into_inner()
            }
        }
        impl<T: ?Sized> RwLock<T> {
            pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
                point();
                wrap(self.0.read())
            }
            pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
                point();
                wrap(self.0.write())
            }
            pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
                point();
                try_wrap(self.0.try_read())
            }
            pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
                point();
                try_wrap(self.0.try_write())
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> {
                self.0.get_mut()
            }
        }
    }
}
