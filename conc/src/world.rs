//! What happens during one execution, as told by the driver and by user-supplied parts of structs.
use crate::{Obs, K};
use rt::env::{build_token, LErr, Outcome};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(Debug, Clone, PartialEq)]
pub enum Att {
    Running,
    Ok(u64),
    Err(u64),
    Panic,
    Cancelled,
}

#[derive(Debug, Clone)]
pub struct Ev {
    pub task:  usize,
    /// Object number * number of fields + field
    pub gf:    usize,
    pub k:     K,
    pub v:     u64,
    pub obs:   Option<Obs>,
    pub start: u64,
    /// MAX if never ended
    pub end:   u64,
}

#[derive(Default)]
pub struct Log {
    pub clock:    u64,
    pub events:   Vec<Ev>,
    pub attempts: Vec<Vec<Att>>,
    pub stacks:   Vec<Vec<usize>>,
    pub notes:    Vec<String>,
    /// Numbers of suspensions still to be made, tasks only
    pub yields:   Vec<u8>,
    pub plan:     Vec<Vec<Option<Outcome>>>,
    pub addrs:    Vec<usize>,
    pub nfields:  usize,
    /// This task keeps what it has got first until all the others are finished
    pub holder:   Option<usize>,
    pub done:     Vec<bool>,
    pub holding:  Option<std::task::Waker>,
    pub cancelled: u64,
}

pub type World = Arc<Mutex<Log>>;
/// Payload of panics made by builders as planned
pub struct Planned;

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static TASK: Cell<usize> = const { Cell::new(0) };
}
pub fn enter(w: &World, task: usize) {
    WORLD.with(|x| *x.borrow_mut() = Some(w.clone()));
    TASK.with(|t| t.set(task));
}
pub fn set_task(task: usize) {
    TASK.with(|t| t.set(task));
}
pub fn task() -> usize {
    TASK.with(|t| t.get())
}
pub fn with<R>(f: impl FnOnce(&mut Log) -> R) -> R {
    let w = WORLD.with(|x| x.borrow().clone()).expect("no world");
    let mut g = w.lock().unwrap();
    f(&mut g)
}
pub fn note(s: String) {
    with(|l| l.notes.push(s));
}

pub fn begin(gf: usize, k: K, v: u64) -> usize {
    with(|l| {
        l.clock += 1;
        l.events.push(Ev { task: task(), gf, k, v, obs: None, start: l.clock, end: u64::MAX });
        let i = l.events.len() - 1;
        l.stacks[task()].push(i);
        i
    })
}
/// Ends an operation along with whatever was left unfinished inside of it.
pub fn end(i: usize, obs: Obs) {
    with(|l| {
        l.clock += 1;
        while let Some(j) = l.stacks[task()].pop() {
            l.events[j].end = l.clock;
            l.events[j].obs = Some(if j == i { obs.clone() } else { Obs::P });
            if j == i {
                break;
            }
        }
    })
}

fn gf(addr: usize, f: usize) -> usize {
    with(|l| {
        let ob = l.addrs.iter().position(|a| *a == addr);
        match ob {
            Some(o) => o * l.nfields + f,
            None => {
                l.notes.push(format!("the builder of field {} got a strange object", f));
                f
            }
        }
    })
}

fn outcome(gf: usize, n: usize, f: usize, deps: u64) -> Result<u64, LErr> {
    match with(|l| l.plan[gf].get(n).copied().flatten()) {
        None => Ok(build_token(gf_token(gf, f), n as u64 + 1, deps)),
        Some(Outcome::Err(c)) => Err(LErr(c)),
        Some(Outcome::Panic) => std::panic::panic_any(Planned),
    }
}
fn gf_token(gf: usize, _f: usize) -> usize {
    gf
}

/// Body of a lazy builder; `deps` reads other fields.
pub fn building(addr: usize, f: usize, deps: impl FnOnce() -> Result<u64, LErr>) -> Result<u64, LErr> {
    let g = gf(addr, f);
    let n = with(|l| {
        l.attempts[g].push(Att::Running);
        l.attempts[g].len() - 1
    });
    hold();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let d = deps()?;
        hold();
        outcome(g, n, f, d)
    }));
    with(|l| {
        l.attempts[g][n] = match &r {
            Ok(Ok(t)) => Att::Ok(*t),
            Ok(Err(e)) => Att::Err(e.0),
            Err(_) => Att::Panic,
        }
    });
    match r {
        Ok(r) => r,
        Err(p) => resume_unwind(p),
    }
}

struct AttGuard(usize, usize);
impl Drop for AttGuard {
    fn drop(&mut self) {
        let p = std::thread::panicking();
        with(|l| {
            if l.attempts[self.0][self.1] == Att::Running {
                l.attempts[self.0][self.1] = if p { Att::Panic } else { Att::Cancelled };
            }
        })
    }
}
pub async fn building_async<D: Future<Output = Result<u64, LErr>>>(addr: usize, f: usize, deps: D) -> Result<u64, LErr> {
    let g = gf(addr, f);
    let n = with(|l| {
        l.attempts[g].push(Att::Running);
        l.attempts[g].len() - 1
    });
    let _guard = AttGuard(g, n);
    ahold().await;
    let r = match deps.await {
        Ok(d) => {
            ahold().await;
            outcome(g, n, f, d)
        }
        Err(e) => Err(e),
    };
    with(|l| {
        l.attempts[g][n] = match &r {
            Ok(t) => Att::Ok(*t),
            Err(e) => Att::Err(e.0),
        }
    });
    r
}

/// An operation of a builder on another field of the object
pub fn nested<R>(addr: usize, f: usize, k: K, op: impl FnOnce() -> Result<R, LErr>, obs: impl FnOnce(&R) -> Obs) -> Result<R, LErr> {
    let i = begin(gf(addr, f), k, 0);
    let r = op();
    match &r {
        Ok(v) => end(i, obs(v)),
        Err(e) => end(i, Obs::E(e.0)),
    }
    r
}
pub async fn anested<R>(addr: usize, f: usize, k: K, op: impl Future<Output = Result<R, LErr>>, obs: impl FnOnce(&R) -> Obs) -> Result<R, LErr> {
    let i = begin(gf(addr, f), k, 0);
    let r = op.await;
    match &r {
        Ok(v) => end(i, obs(v)),
        Err(e) => end(i, Obs::E(e.0)),
    }
    r
}

fn is_holder() -> bool {
    with(|l| {
        if l.holder == Some(task()) {
            l.holder = None;
            true
        }
        else {
            false
        }
    })
}

/// Others may run now.
pub fn hold() {
    if is_holder() {
        parking_lot::sched::others_done();
    }
    parking_lot::sched::point();
}

struct Yield(u8);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
struct OthersDone;
impl Future for OthersDone {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = task();
        with(|l| {
            if l.done.iter().enumerate().all(|(i, d)| i == me || *d) {
                Poll::Ready(())
            }
            else {
                l.holding = Some(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}
pub async fn ahold() {
    if is_holder() {
        OthersDone.await;
    }
    let n = with(|l| l.yields.pop().unwrap_or(1));
    Yield(n).await;
}

/// What is seen through a held guard must not change unless changed through it.
pub fn same<T: PartialEq + std::fmt::Debug>(a: &T, b: &T) {
    if a != b {
        note(format!("a held guard gave {:?} at first and {:?} later", a, b));
    }
}
pub fn expect(c: bool, what: &str) {
    if !c {
        note(what.to_string());
    }
}
