//! C03: the batching data loader
use crate::rt::*;
use crate::sched::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tailcall::core::data_loader::symex::{CacheFactory, HashMapCache, NoCache};
use tailcall::core::data_loader::{DataLoader, Loader};

/// number of the batch that gave it, any byte
type V = (u8, u8);
struct Batch {
    keys: Vec<u8>,
    since: usize,
    answer: RefCell<Option<Result<HashMap<u8, V>, V>>>,
    waker: RefCell<Option<Waker>>,
    over: Cell<bool>,
}
struct Fut(Solo<Rc<Batch>>);
impl Future for Fut {
    type Output = Result<HashMap<u8, V>, V>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let b = &self.0 .0;
        match &*b.answer.borrow() {
            Some(v) => {
                b.over.set(true);
                Poll::Ready(v.clone())
            }
            None => {
                *b.waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
struct Backend;
#[async_trait::async_trait]
impl Loader<u8> for Backend {
    type Value = V;
    type Error = V;
    async fn load(&self, keys: &[u8]) -> Result<HashMap<u8, V>, V> {
        w().begin(keys).await
    }
}
struct Call {
    keys: Vec<u8>,
    since: usize,
    cached: Vec<(u8, V)>,
    unsure: bool,
    task: Task<Result<HashMap<u8, V>, V>>,
}
trait Sut {
    fn load(&'static self, keys: Vec<u8>, one: bool) -> Pin<Box<dyn Future<Output = Result<HashMap<u8, V>, V>>>>;
}
impl<C: CacheFactory<u8, V>> Sut for DataLoader<u8, Backend, C> {
    fn load(&'static self, keys: Vec<u8>, one: bool) -> Pin<Box<dyn Future<Output = Result<HashMap<u8, V>, V>>>> {
        if one && keys.len() == 1 {
            Box::pin(async move {
                let k = keys[0];
                Ok(self.load_one(k).await?.into_iter().map(|v| (k, v)).collect())
            })
        } else {
            Box::pin(self.load_many(keys))
        }
    }
}
struct World {
    sut: &'static dyn Sut,
    max: usize,
    shapes: &'static [&'static [u8]],
    extra: bool,
    partial: bool,
    caching: bool,
    calls: RefCell<Vec<Rc<Call>>>,
    batches: RefCell<Vec<Rc<Batch>>>,
    tasks: RefCell<Vec<Rc<Task<()>>>>,
    timers: RefCell<Vec<Rc<rsx_shim::Timer>>>,
    cache: RefCell<Vec<(u8, V)>>,
    clock: Cell<usize>,
    coming: Cell<u8>,
    cancels: Cell<u8>,
    nested: Cell<u8>,
    biggest: Cell<usize>,
    one: bool,
}
static WORLD: Solo<Cell<Option<&'static World>>> = Solo(Cell::new(None));
fn w() -> &'static World {
    WORLD.0.get().unwrap()
}
impl World {
    fn tick(&self) -> usize {
        self.clock.set(self.clock.get() + 1);
        self.clock.get()
    }
    fn begin(&self, keys: &[u8]) -> Fut {
        let mut k = keys.to_vec();
        k.sort();
        let n = k.len();
        k.dedup();
        check(k.len() == n, "a key is asked for once in a batch");
        check(n > 0, "no empty batch");
        let asked = |k: &u8| self.calls.borrow().iter().any(|c| c.keys.contains(k));
        check(k.iter().all(asked), "only keys somebody asked for are loaded");
        // all but the last call's keys were below the limit
        check(n < self.max + self.biggest.get(), "the size of a batch is limited");
        let b = Rc::new(Batch { keys: k, since: self.tick(), answer: RefCell::new(None), waker: RefCell::new(None), over: Cell::new(false) });
        self.batches.borrow_mut().push(b.clone());
        check(self.batches.borrow().len() <= self.calls.borrow().len() + (self.nested.get() > 0) as usize * 8, "no more batches than calls");
        Fut(Solo(b))
    }
    fn cached(&self, k: u8) -> Option<V> {
        self.cache.borrow().iter().find(|x| x.0 == k).map(|x| x.1)
    }
    fn store(&self, k: u8, v: V) {
        let mut c = self.cache.borrow_mut();
        c.retain(|x| x.0 != k);
        c.push((k, v));
    }
    fn start(&'static self) {
        self.coming.set(self.coming.get() - 1);
        let keys = self.shapes[choose(self.shapes.len() as u8) as usize].to_vec();
        self.biggest.set(self.biggest.get().max(keys.len()));
        let cached = keys.iter().filter_map(|k| self.cached(*k).map(|v| (*k, v))).collect();
        let unsure = self.batches.borrow().iter().any(|b| b.over.get() && b.waker.borrow().is_none() && self.tasks.borrow().iter().any(|t| !t.done() && !t.idle()));
        let n = self.calls.borrow().len();
        let one = self.one;
        let f = self.sut.load(keys.clone(), one);
        let c = Rc::new(Call { keys, since: self.tick(), cached, unsure, task: Task::new(f) });
        self.calls.borrow_mut().push(c);
        self.poll(n);
    }
    fn adopt(&self) {
        for t in rsx_shim::spawned() {
            self.tasks.borrow_mut().push(Rc::new(Task::new(t)));
        }
        for t in rsx_shim::timers() {
            self.timers.borrow_mut().push(t);
        }
    }
    fn poll(&self, i: usize) {
        let c = self.calls.borrow()[i].clone();
        if !c.task.poll() {
            self.adopt();
            return;
        }
        self.adopt();
        let got = c.task.got.borrow().clone().unwrap();
        let rest: Vec<u8> = c.keys.iter().copied().filter(|k| !c.cached.iter().any(|x| x.0 == *k)).collect();
        let mut ok = false;
        if rest.is_empty() {
            cover("from the cache");
            if let Ok(m) = &got {
                ok = m.len() == c.cached.len() && c.cached.iter().all(|(k, v)| same(m.get(k), Some(v)));
            }
        }
        for b in self.batches.borrow().iter() {
            if !b.over.get() || b.since < c.since || !rest.iter().all(|k| b.keys.contains(k)) {
                continue;
            }
            match (&*b.answer.borrow(), &got) {
                (Some(Ok(v)), Ok(m)) => {
                    cover("answered");
                    let mut good = m.keys().all(|k| c.keys.contains(k));
                    for k in &c.keys {
                        let want = match c.cached.iter().find(|x| x.0 == *k) {
                            Some(x) => Some(&x.1),
                            None => v.get(k),
                        };
                        good &= same(m.get(k), want);
                    }
                    ok |= good;
                }
                (Some(Err(e)), Err(f)) => {
                    cover("failed");
                    ok |= same(Some(e), Some(f));
                }
                _ => {}
            }
        }
        check(ok || c.unsure, "a caller gets the backend's values for its own keys, or its failure");
    }
    fn answer(&self, n: usize) {
        let b = self.batches.borrow()[n].clone();
        let n = n as u8;
        let v = if choose(3) == 0 {
            Err((n, byte()))
        } else {
            let mut m = HashMap::new();
            for k in &b.keys {
                if !self.partial || choose_bool() {
                    m.insert(*k, (n, byte()));
                }
            }
            if self.extra && choose_bool() {
                m.insert(9, (n, byte()));
                if !m.contains_key(&0) && !b.keys.contains(&0) {
                    m.insert(0, (n, byte()));
                }
            }
            Ok(m)
        };
        *b.answer.borrow_mut() = Some(v);
        if let Some(x) = b.waker.take() {
            x.wake()
        }
    }
    fn run(&self, i: usize) {
        let t = self.tasks.borrow()[i].clone();
        let before: Vec<bool> = self.batches.borrow().iter().map(|b| b.over.get()).collect();
        t.poll();
        self.adopt();
        for (i, b) in self.batches.borrow().iter().enumerate() {
            if b.over.get() && !before.get(i).copied().unwrap_or(false) && self.caching {
                if let Some(Ok(m)) = &*b.answer.borrow() {
                    for k in [0, 1, 2, 3, 9] {
                        if let Some(v) = m.get(&k) {
                            self.store(k, *v);
                        }
                    }
                }
            }
        }
    }
    fn moves(&self, nested: bool) -> Vec<(u8, usize)> {
        let mut can = vec![];
        if self.coming.get() > 0 {
            can.push((0, 0));
        }
        for (i, t) in self.timers.borrow().iter().enumerate() {
            if !t.fired.get() {
                can.push((1, i));
            }
        }
        for (i, t) in self.tasks.borrow().iter().enumerate() {
            if t.ready() {
                can.push((2, i));
            }
        }
        if !nested {
            for (i, b) in self.batches.borrow().iter().enumerate() {
                if b.answer.borrow().is_none() {
                    can.push((3, i));
                }
            }
        }
        if self.cancels.get() > 0 {
            for (i, c) in self.calls.borrow().iter().enumerate() {
                if c.task.idle() {
                    can.push((4, i));
                }
            }
        }
        can
    }
    fn event(&'static self, nested: bool) -> bool {
        let can = self.moves(nested);
        let k = choose(can.len() as u8 + nested as u8) as usize;
        match can.get(k) {
            Some((0, _)) => self.start(),
            Some((1, i)) => {
                let t = self.timers.borrow()[*i].clone();
                rsx_shim::fire(&t);
                // a timer fires to run its task
                for j in 0..self.tasks.borrow().len() {
                    let t = self.tasks.borrow()[j].clone();
                    if t.ready() {
                        self.run(j);
                    }
                }
            }
            Some((2, i)) => self.run(*i),
            Some((3, i)) => self.answer(*i),
            Some((_, i)) => {
                self.cancels.set(self.cancels.get() - 1);
                let c = self.calls.borrow()[*i].clone();
                c.task.cancel();
                cover("cancelled");
            }
            None => return false,
        }
        // who has an answer takes it
        for i in 0..self.calls.borrow().len() {
            let c = self.calls.borrow()[i].clone();
            if c.task.ready() {
                self.poll(i);
            }
        }
        true
    }
}
fn same(a: Option<&V>, b: Option<&V>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => (a.0 == b.0) & (a.1 == b.1),
        (None, None) => true,
        _ => false,
    }
}
fn hook() {
    let w = w();
    if w.nested.get() > 0 {
        w.nested.set(w.nested.get() - 1);
        if w.event(true) {
            cover("between");
        }
    }
}
struct Setup {
    calls: u8,
    cancels: u8,
    nested: u8,
    steps: usize,
    max: usize,
    shapes: &'static [&'static [u8]],
    extra: bool,
    partial: bool,
    one: bool,
    feed: bool,
}
fn go<C: CacheFactory<u8, V>>(s: Setup, cache: C, caching: bool) {
    let l: &'static DataLoader<u8, Backend, C> = Box::leak(Box::new(DataLoader::with_cache(Backend, cache).delay(Duration::from_millis(7)).max_batch_size(s.max)));
    let world: &'static World = Box::leak(Box::new(World {
        sut: l,
        max: s.max,
        shapes: s.shapes,
        extra: s.extra,
        partial: s.partial,
        caching,
        calls: Default::default(),
        batches: Default::default(),
        tasks: Default::default(),
        timers: Default::default(),
        cache: Default::default(),
        clock: Cell::new(0),
        coming: Cell::new(s.calls),
        cancels: Cell::new(s.cancels),
        nested: Cell::new(s.nested),
        biggest: Cell::new(0),
        one: s.one,
    }));
    WORLD.0.set(Some(world));
    if s.feed {
        let v = (77, byte());
        block_on(l.feed_one(1, v));
        if caching {
            world.store(1, v);
        }
    }
    rsx_shim::set_hook(Some(hook));
    for _ in 0..s.steps {
        if world.moves(false).is_empty() {
            break;
        }
        world.event(false);
    }
    rsx_shim::set_hook(None);
    // from here on everything runs its course
    for _ in 0..3 * s.calls as usize + 3 {
        for t in world.timers.borrow().iter() {
            rsx_shim::fire(t);
        }
        for i in 0..world.tasks.borrow().len() {
            let t = world.tasks.borrow()[i].clone();
            if t.ready() {
                world.run(i);
            }
        }
        for i in 0..world.batches.borrow().len() {
            let b = world.batches.borrow()[i].clone();
            if b.answer.borrow().is_none() {
                world.answer(i);
            }
        }
        for i in 0..world.calls.borrow().len() {
            let c = world.calls.borrow()[i].clone();
            if c.task.ready() {
                world.poll(i);
            }
        }
    }
    check(world.calls.borrow().iter().all(|c| c.task.done() || c.task.dropped.get()), "no caller is left unanswered");
    check(world.timers.borrow().iter().all(|t| t.duration == Duration::from_millis(7)), "batches wait for the configured time");
    if caching {
        let all = l.get_cached_values();
        let c = world.cache.borrow();
        let mut ok = all.len() == c.len();
        for (k, v) in c.iter() {
            ok &= same(all.get(k), Some(v));
        }
        check(ok, "the cache holds the last values");
        l.clear();
        check(l.get_cached_values().is_empty(), "a cleared cache is empty");
    }
    observe_u64(world.batches.borrow().len() as u64);
    for b in world.batches.borrow().iter() {
        observe(&b.keys);
    }
}
/// single keys: batches fill up, timers fire, the backend answers, callers give up
pub fn h_c03_single() {
    let max = 1 + choose(3) as usize;
    go(Setup { calls: 3, cancels: 1, nested: 0, steps: 5, max, shapes: &[&[0], &[1]], extra: false, partial: true, one: true, feed: false }, NoCache, false)
}
/// several keys a call
pub fn h_c03_many() {
    go(Setup { calls: 2, cancels: 0, nested: 0, steps: 5, max: 3, shapes: &[&[0], &[0, 1], &[1, 2], &[2, 2], &[]], extra: true, partial: true, one: false, feed: false }, NoCache, false)
}
/// other threads come in between
pub fn h_c03_threads() {
    let max = 1 + choose(3) as usize;
    go(Setup { calls: 3, cancels: 0, nested: 2, steps: 3, max, shapes: &[&[0], &[1]], extra: false, partial: true, one: false, feed: false }, NoCache, false)
}
pub fn h_c03_cache() {
    go(Setup { calls: 3, cancels: 0, nested: 0, steps: 5, max: 2, shapes: &[&[0], &[0, 1]], extra: false, partial: false, one: false, feed: choose_bool() }, HashMapCache::default(), true)
}
pub fn h_c03_cache_extra() {
    go(Setup { calls: 2, cancels: 0, nested: 0, steps: 6, max: 2, shapes: &[&[0], &[0, 1]], extra: true, partial: true, one: false, feed: choose_bool() }, HashMapCache::default(), true)
}
pub fn h_c03_single_deep() {
    let max = 1 + choose(3) as usize;
    go(Setup { calls: 4, cancels: 1, nested: 0, steps: 6, max, shapes: &[&[0], &[1]], extra: false, partial: false, one: true, feed: false }, NoCache, false)
}
pub fn h_c03_many_deep() {
    go(Setup { calls: 3, cancels: 1, nested: 0, steps: 6, max: 3, shapes: &[&[0], &[0, 1], &[1, 2], &[2, 2], &[]], extra: false, partial: false, one: false, feed: false }, NoCache, false)
}
pub fn h_c03_threads_deep() {
    let max = 1 + choose(3) as usize;
    go(Setup { calls: 4, cancels: 1, nested: 2, steps: 4, max, shapes: &[&[0], &[1]], extra: false, partial: false, one: false, feed: false }, NoCache, false)
}
crate::harnesses!(h_c03_single, h_c03_many, h_c03_threads, h_c03_cache, h_c03_cache_extra, h_c03_single_deep, h_c03_many_deep, h_c03_threads_deep);
