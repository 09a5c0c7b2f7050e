//! Deterministic executor: who runs next, spurious polls, cancellation and thread migration are all
//! decided by the schedule tape. Also: controlled execution of blocking sessions on parked threads.
use crate::alloc;
use crate::io::{lock, Runaway, World};
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type R<T> = Result<T, Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Violation {
        class: class.into(),
        msg: msg.into(),
    })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !$c { return $crate::exec::fail($class, format!($($a)*)); }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _m = alloc::mute();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(payload)".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if std::env::var("SIM_PANICS").is_ok() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
fn panic_violation(p: Box<dyn std::any::Any + Send>) -> Violation {
    let _m = alloc::mute();
    let msg = LAST_PANIC.with(|l| l.borrow().clone());
    match p.downcast::<Runaway>() {
        Ok(r) => Violation {
            class: "runaway".into(),
            msg: r.0,
        },
        Err(p) => {
            std::mem::forget(p);
            Violation {
                class: "panic".into(),
                msg,
            }
        }
    }
}

/// Run a piece of the code under test: panics become violations, allocations are tracked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> R<T> {
    let _t = alloc::track();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(panic_violation(p)),
    }
}

struct Flag {
    task: usize,
    gen: u64,
    woken: Arc<Mutex<Vec<u64>>>,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        let mut g = lock(&self.woken);
        if g[self.task] < self.gen {
            g[self.task] = self.gen;
        }
    }
}

struct Task<'a, T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + Send + 'a>>>,
    gen: u64,
    out: Option<R<T>>,
}

/// Cooperative multi-task executor. A task is runnable only if the waker of its *latest* poll was
/// woken (or it was never polled).
pub struct Exec<'a, T> {
    world: World,
    tasks: Vec<Task<'a, T>>,
    woken: Arc<Mutex<Vec<u64>>>,
    /// of 16: poll a task that was not woken
    pub spurious: u64,
    pub polls: u64,
    pub spurious_polls: u64,
}

impl<'a, T: Send + 'a> Exec<'a, T> {
    pub fn new(world: &World, spurious: u64) -> Exec<'a, T> {
        Exec {
            world: world.clone(),
            tasks: vec![],
            woken: Arc::new(Mutex::new(vec![])),
            spurious,
            polls: 0,
            spurious_polls: 0,
        }
    }
    pub fn add(&mut self, f: impl Future<Output = T> + Send + 'a) -> usize {
        let fut: Pin<Box<dyn Future<Output = T> + Send + 'a>> = {
            let _t = alloc::track();
            Box::pin(f)
        };
        self.tasks.push(Task {
            fut: Some(fut),
            gen: 0,
            out: None,
        });
        lock(&self.woken).push(0);
        self.tasks.len() - 1
    }
    pub fn live(&self, i: usize) -> bool {
        self.tasks[i].fut.is_some()
    }
    pub fn runnable(&self) -> Vec<usize> {
        let g = lock(&self.woken);
        (0..self.tasks.len())
            .filter(|i| self.live(*i) && g[*i] == self.tasks[*i].gen)
            .collect()
    }
    pub fn waiting(&self) -> Vec<usize> {
        let g = lock(&self.woken);
        (0..self.tasks.len())
            .filter(|i| self.live(*i) && g[*i] != self.tasks[*i].gen)
            .collect()
    }
    /// Poll task `i` once, on thread `on` of the pool if given.
    pub fn poll(&mut self, i: usize, pool: Option<(&Pool, usize)>) {
        self.polls += 1;
        let t = &mut self.tasks[i];
        t.gen += 1;
        let waker: Waker = Arc::new(Flag {
            task: i,
            gen: t.gen,
            woken: self.woken.clone(),
        })
        .into();
        self.world.with(|w| w.ev("poll", i as u32, t.gen, 0));
        let fut = t.fut.as_mut().unwrap();
        let mut body = || {
            let mut cx = Context::from_waker(&waker);
            guarded(|| fut.as_mut().poll(&mut cx))
        };
        let r = match pool {
            Some((p, k)) => p.run(k, body),
            None => body(),
        };
        let done = match r {
            Ok(Poll::Pending) => None,
            Ok(Poll::Ready(v)) => Some(Ok(v)),
            Err(v) => Some(Err(v)),
        };
        if let Some(v) = done {
            t.out = Some(v);
            let f = t.fut.take();
            let _t = alloc::track();
            drop(f);
        }
    }
    pub fn drop_task(&mut self, i: usize) {
        let f = self.tasks[i].fut.take();
        let _t = alloc::track();
        drop(f);
    }
    pub fn take(&mut self, i: usize) -> Option<R<T>> {
        self.tasks[i].out.take()
    }
    /// One scheduling step. False when no task is left.
    pub fn step(&mut self, pool: Option<&Pool>) -> R<bool> {
        let run = self.runnable();
        let wait = self.waiting();
        if run.is_empty() && wait.is_empty() {
            return Ok(false);
        }
        let spur = !wait.is_empty() && self.spurious > 0 && self.world.chance(self.spurious, 16);
        if run.is_empty() && !spur {
            if !self.world.advance() {
                return fail(
                    "stuck",
                    "a suspended operation has no waker registered with a transport it waits for",
                );
            }
            return Ok(true);
        }
        let i = if spur {
            self.spurious_polls += 1;
            self.world.fault("spurious_poll");
            wait[self.world.draw(wait.len() as u64) as usize]
        } else {
            // sometimes let time pass while something is runnable
            if self.world.with(|w| !w.timers.is_empty() && w.s.chance(1, 4)) {
                self.world.advance();
                return Ok(true);
            }
            run[self.world.draw(run.len() as u64) as usize]
        };
        let on = pool.map(|p| {
            let k = self.world.draw(p.size() as u64) as usize;
            if k > 0 {
                self.world.fault("thread_migration");
            }
            (p, k)
        });
        self.poll(i, on);
        if self.polls > 2_000_000 {
            return fail("runaway", "more than 2000000 polls");
        }
        Ok(true)
    }
}

/// Run one future to completion under the schedule.
pub fn block_on<'a, T: Send + 'a, F: Future<Output = T> + Send + 'a>(
    world: &World,
    spurious: u64,
    f: impl FnOnce() -> F,
) -> R<T> {
    let f = guarded(f)?;
    let mut e = {
        let _m = alloc::mute();
        let mut e = Exec::new(world, spurious);
        e.add(f);
        e
    };
    loop {
        let more = {
            let _m = alloc::mute();
            e.step(None)?
        };
        if !more {
            let _m = alloc::mute();
            return e.take(0).unwrap();
        }
    }
}

type Job = Box<dyn FnOnce() + Send>;
/// Worker threads that run one job at a time, only when told to.
pub struct Pool {
    tx: Vec<mpsc::Sender<Job>>,
}
impl Pool {
    pub fn new(n: usize) -> Pool {
        Pool {
            tx: (0..n)
                .map(|_| {
                    let (tx, rx) = mpsc::channel::<Job>();
                    std::thread::spawn(move || {
                        for j in rx {
                            j()
                        }
                    });
                    tx
                })
                .collect(),
        }
    }
    pub fn size(&self) -> usize {
        self.tx.len() + 1
    }
    /// Run `f` on worker `k` (0: the calling thread) and wait for it.
    pub fn run<T: Send>(&self, k: usize, mut f: impl FnMut() -> T + Send) -> T {
        if k == 0 {
            return f();
        }
        let (tx, rx) = mpsc::channel::<T>();
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
            let r = f();
            let _ = tx.send(r);
        });
        // The job is finished (its sender used or dropped) before this function returns.
        let job: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Job>(job) };
        self.tx[k - 1].send(job).unwrap();
        rx.recv().expect("worker died")
    }
}

/// Baton passing: blocking sessions run on their own threads but only one at a time, switched at
/// their transport calls.
pub struct Baton {
    st: Mutex<(Option<usize>, Vec<bool>)>,
    cv: Condvar,
}
impl Baton {
    pub fn new(n: usize) -> Arc<Baton> {
        Arc::new(Baton {
            st: Mutex::new((None, vec![true; n])),
            cv: Condvar::new(),
        })
    }
    /// Called by session `i` (also once before it starts).
    pub fn yield_now(&self, i: usize) {
        let mut g = lock(&self.st);
        if g.0 == Some(i) {
            g.0 = None;
            self.cv.notify_all();
        }
        while g.0 != Some(i) {
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    pub fn done(&self, i: usize) {
        let mut g = lock(&self.st);
        g.1[i] = false;
        g.0 = None;
        self.cv.notify_all();
    }
    /// Called by the scheduler: let session `i` run until its next transport call or its end.
    pub fn resume(&self, i: usize) {
        let mut g = lock(&self.st);
        g.0 = Some(i);
        self.cv.notify_all();
        while g.0.is_some() {
            g = self.cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    pub fn live(&self) -> Vec<usize> {
        let g = lock(&self.st);
        (0..g.1.len()).filter(|i| g.1[*i]).collect()
    }
}
