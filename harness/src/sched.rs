//! a small executor: tasks are polled only when woken, in an order the harness chooses
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub use rsx_shim::Solo;
pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}
pub struct Task<T> {
    fut: RefCell<Option<Pin<Box<dyn Future<Output = T>>>>>,
    flag: Arc<Flag>,
    waker: Waker,
    pub got: RefCell<Option<T>>,
    pub dropped: Cell<bool>,
}
impl<T> Task<T> {
    pub fn new(f: Pin<Box<dyn Future<Output = T>>>) -> Self {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        Task { fut: RefCell::new(Some(f)), waker: Waker::from(flag.clone()), flag, got: RefCell::new(None), dropped: Cell::new(false) }
    }
    pub fn done(&self) -> bool {
        self.got.borrow().is_some()
    }
    /// waiting for its turn (not being polled right now)
    pub fn ready(&self) -> bool {
        self.flag.0.load(Ordering::SeqCst) && self.fut.borrow().is_some()
    }
    pub fn idle(&self) -> bool {
        self.fut.borrow().is_some()
    }
    pub fn poll(&self) -> bool {
        let f = self.fut.borrow_mut().take();
        if let Some(mut f) = f {
            self.flag.0.store(false, Ordering::SeqCst);
            match f.as_mut().poll(&mut Context::from_waker(&self.waker)) {
                Poll::Ready(v) => *self.got.borrow_mut() = Some(v),
                Poll::Pending => *self.fut.borrow_mut() = Some(f),
            }
        }
        self.done()
    }
    pub fn cancel(&self) {
        if let Some(f) = self.fut.borrow_mut().take() {
            self.dropped.set(true);
            drop(f);
        }
    }
}
