//! C04: deduplication of concurrent requests
use crate::rt::*;
use crate::sched::*;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use tailcall::core::data_loader::DedupeResult;

/// number of the computation that gave it, any byte
type V = (u8, u8);
type R = Result<V, V>;
struct Comp {
    key: u8,
    owner: usize,
    value: Cell<Option<R>>,
    waker: RefCell<Option<Waker>>,
    /// when its value was taken over
    over: Cell<Option<usize>>,
}
struct CompFut(Rc<Comp>);
impl Future for CompFut {
    type Output = R;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        match self.0.value.get() {
            Some(v) => {
                self.0.over.set(Some(w().tick()));
                Poll::Ready(v)
            }
            None => {
                *self.0.waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct Caller {
    key: u8,
    since: usize,
    asked: Cell<usize>,
    /// a computation whose value had been taken over but whose owner had not returned when it came
    window: Option<usize>,
    task: Task<R>,
}
struct World {
    persist: bool,
    sut: DedupeResult<u8, V, V>,
    callers: RefCell<Vec<Rc<Caller>>>,
    comps: RefCell<Vec<Rc<Comp>>>,
    clock: Cell<usize>,
    /// callers yet to come, cancellations, nested operations allowed
    coming: Cell<u8>,
    cancels: Cell<u8>,
    nested: Cell<u8>,
    keys: u8,
}
static WORLD: Solo<Cell<Option<&'static World>>> = Solo(Cell::new(None));
fn w() -> &'static World {
    WORLD.0.get().unwrap()
}
impl World {
    fn tick(&self) -> usize {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
    fn caller(&self, i: usize) -> Rc<Caller> {
        self.callers.borrow()[i].clone()
    }
    fn comps(&self) -> Vec<Rc<Comp>> {
        self.comps.borrow().clone()
    }
    /// still to give a value to somebody
    fn alive(&self, c: &Comp) -> bool {
        c.over.get().is_none() && !self.caller(c.owner).task.dropped.get()
    }
    fn begin(&self, i: usize, key: u8) -> CompFut {
        for c in self.comps() {
            if c.key == key {
                check(!self.alive(&c), "one computation at a time for a key");
                if self.persist {
                    check(c.over.get().is_none(), "a persisted result is used again");
                }
            }
        }
        let c = Rc::new(Comp { key, owner: i, value: Cell::new(None), waker: RefCell::new(None), over: Cell::new(None) });
        self.comps.borrow_mut().push(c.clone());
        CompFut(c)
    }
    fn start(&'static self) {
        self.coming.set(self.coming.get() - 1);
        let key = choose(self.keys);
        let i = self.callers.borrow().len();
        let kref: &'static u8 = Box::leak(Box::new(key));
        let fut = self.sut.dedupe(kref, move || w().begin(i, key));
        let window = self.comps().iter().position(|c| c.key == key && c.over.get().is_some() && !self.caller(c.owner).task.done() && !self.caller(c.owner).task.idle());
        let c = Rc::new(Caller { key, since: self.tick(), asked: Cell::new(0), window, task: Task::new(Box::pin(fut)) });
        self.callers.borrow_mut().push(c.clone());
        c.task.poll();
        c.asked.set(self.tick());
        self.poll_done(i);
    }
    fn poll(&self, i: usize) {
        self.caller(i).task.poll();
        self.poll_done(i)
    }
    fn poll_done(&self, i: usize) {
        let c = self.caller(i);
        if c.task.done() {
            cover("answered");
            let r = c.task.got.borrow().unwrap();
            let (tag, val, ok) = match r {
                Ok((t, v)) => (t, v, true),
                Err((t, v)) => (t, v, false),
            };
            let comps = self.comps();
            // the computations that ended since it came; it may have missed those that
            // ended while it was still asking
            let mut ended: Vec<(usize, usize)> = vec![];
            for (n, x) in comps.iter().enumerate() {
                if let Some(t) = x.over.get() {
                    if x.key == c.key && (self.persist || t > c.since) {
                        ended.push((t, n));
                    }
                }
            }
            ended.sort();
            let missed = if self.persist { 0 } else { ended.iter().filter(|x| x.0 <= c.asked.get()).count() };
            ended.truncate(missed + 1);
            let t = tag as usize;
            // after a computation was given up, those who waited for it come as if new
            let retry = comps.iter().any(|x| x.key == c.key && x.over.get().is_none() && self.caller(x.owner).task.dropped.get());
            let later = comps.get(t).map_or(false, |x| x.key == c.key && x.over.get().map_or(false, |o| o > c.since));
            check(ended.iter().any(|x| x.1 == t) || c.window == Some(t) || (retry && later), "everybody waiting gets the result of the computation in flight");
            if let Some(x) = comps.get(t) {
                if x.owner != i {
                    cover("shared");
                }
                match x.value.get() {
                    Some(Ok((_, v))) => check(ok & (v == val), "the computation's own value"),
                    Some(Err((_, v))) => check(!ok & (v == val), "the computation's own error"),
                    None => check(false, "a value nobody computed"),
                }
            }
        }
    }
    fn complete(&self, n: usize) {
        let c = self.comps()[n].clone();
        let v = (n as u8, byte());
        c.value.set(Some(if any_bool_split() { Ok(v) } else { Err(v) }));
        if let Some(x) = c.waker.take() {
            x.wake()
        }
    }
    /// does one thing out of all that can happen now; false: nothing happens
    fn event(&'static self, nested: bool) -> bool {
        let n = self.callers.borrow().len();
        let mut can: Vec<(u8, usize)> = vec![];
        if self.coming.get() > 0 {
            can.push((0, 0));
        }
        for i in 0..n {
            let c = self.caller(i);
            if c.task.ready() {
                can.push((1, i));
            }
            if c.task.idle() && self.cancels.get() > 0 {
                can.push((2, i));
            }
        }
        if !nested {
            for (i, c) in self.comps().iter().enumerate() {
                if self.alive(c) && c.value.get().is_none() {
                    can.push((3, i));
                }
            }
        }
        let k = choose(can.len() as u8 + nested as u8) as usize;
        match can.get(k) {
            Some((0, _)) => self.start(),
            Some((1, i)) => self.poll(*i),
            Some((2, i)) => {
                self.cancels.set(self.cancels.get() - 1);
                self.caller(*i).task.cancel();
                cover("cancelled");
            }
            Some((_, i)) => self.complete(*i),
            None => return false,
        }
        true
    }
    fn settled(&self) -> bool {
        self.coming.get() == 0 && self.callers.borrow().iter().all(|c| !c.task.idle())
    }
}
fn any_bool_split() -> bool {
    choose_bool()
}
fn hook() {
    let w = w();
    if w.nested.get() > 0 {
        w.nested.set(w.nested.get() - 1);
        if w.event(true) {
            cover("between");
        }
    }
}
fn go(callers: u8, cancels: u8, nested: u8, keys: u8, steps: usize) {
    let persist = choose_bool();
    let world: &'static World = Box::leak(Box::new(World {
        persist,
        sut: DedupeResult::new(persist),
        callers: Default::default(),
        comps: Default::default(),
        clock: Cell::new(0),
        coming: Cell::new(callers),
        cancels: Cell::new(cancels),
        nested: Cell::new(nested),
        keys,
    }));
    WORLD.0.set(Some(world));
    rsx_shim::set_hook(Some(hook));
    for _ in 0..steps {
        if world.settled() {
            break;
        }
        if !can_move(world) {
            break;
        }
        world.event(false);
    }
    // from here on everything runs its course
    rsx_shim::set_hook(None);
    for _ in 0..4 * callers as usize + 4 {
        for i in 0..world.callers.borrow().len() {
            if world.caller(i).task.ready() {
                world.poll(i);
            }
        }
        for (i, c) in world.comps().iter().enumerate() {
            if world.alive(c) && c.value.get().is_none() {
                world.complete(i);
            }
        }
    }
    let all = world.callers.borrow().iter().all(|c| c.task.done() || c.task.dropped.get());
    check(all, "nobody is left waiting");
    observe_u64(world.comps().len() as u64);
    for c in world.callers.borrow().iter() {
        if let Some(Ok((t, _))) = *c.task.got.borrow() {
            observe(&[t]);
        }
    }
}
fn can_move(w: &World) -> bool {
    w.coming.get() > 0 || w.callers.borrow().iter().any(|c| c.task.ready() || (c.task.idle() && w.cancels.get() > 0)) || w.comps().iter().any(|c| w.alive(c) && c.value.get().is_none())
}
/// callers come, computations end, callers give up, in any order
pub fn h_c04_order() {
    go(3, 1, 0, 1, 8)
}
pub fn h_c04_keys() {
    go(3, 0, 0, 2, 7)
}
/// and other threads come in between the steps of one
pub fn h_c04_threads() {
    go(3, 1, 2, 1, 5)
}
pub fn h_c04_order_deep() {
    go(4, 1, 0, 2, 8)
}
pub fn h_c04_threads_deep() {
    go(3, 2, 3, 2, 7)
}
crate::harnesses!(h_c04_order, h_c04_keys, h_c04_threads, h_c04_order_deep, h_c04_threads_deep);
