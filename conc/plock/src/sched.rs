//! Runs threads one at a time; at every synchronization operation the next one to run is taken from a list of choices.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize, &'static str),
    Done,
}

struct St {
    cur:     usize,
    status:  Vec<Status>,
    choices: Vec<u8>,
    pos:     usize,
    steps:   usize,
    switches: usize,
    abort:   Option<String>,
}

pub struct Exec {
    m:  Mutex<St>,
    cv: Vec<Condvar>,
}

/// Payload of panics which end threads of an aborted execution
pub struct Aborted;

const MAX_STEPS: usize = 20_000;
const OTHERS_DONE: usize = 1;

thread_local! {
    static CUR: RefCell<Option<(Arc<Exec>, usize)>> = const { RefCell::new(None) };
}

fn cur() -> Option<(Arc<Exec>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// What came out of an execution
#[derive(Debug, Default, Clone)]
pub struct Outcome {
    /// Why it couldn't be finished
    pub abort:    Option<String>,
    pub switches: usize,
    pub steps:    usize,
}

/// Runs all the closures as threads.
pub fn run(choices: Vec<u8>, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Outcome {
    let n = bodies.len();
    let e = Arc::new(Exec {
        m:  Mutex::new(St { cur: 0, status: vec![Status::Ready; n], choices, pos: 0, steps: 0, switches: 0, abort: None }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
    });
    let hs: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(i, b)| {
            let e = e.clone();
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    CUR.with(|c| *c.borrow_mut() = Some((e.clone(), i)));
                    drop(e.wait_turn(i, e.m.lock().unwrap()));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                    CUR.with(|c| *c.borrow_mut() = None);
                    e.done(i);
                    if let Err(p) = r {
                        if !p.is::<Aborted>() {
                            std::panic::resume_unwind(p);
                        }
                    }
                })
                .expect("thread")
        })
        .collect();
    let mut panicked = false;
    for h in hs {
        panicked |= h.join().is_err();
    }
    let s = e.m.lock().unwrap();
    let mut abort = s.abort.clone();
    if panicked && abort.is_none() {
        abort = Some("a thread panicked".into());
    }
    Outcome { abort, switches: s.switches, steps: s.steps }
}

impl Exec {
    fn wait_turn<'a>(&'a self, me: usize, mut s: MutexGuard<'a, St>) -> MutexGuard<'a, St> {
        while s.cur != me {
            s = self.cv[me].wait(s).unwrap();
        }
        s
    }
    /// Passes control; `me` may or may not be able to go on.
    fn switch<'a>(&'a self, me: usize, mut s: MutexGuard<'a, St>) -> MutexGuard<'a, St> {
        let n = s.status.len();
        let others: Vec<usize> = (1..n).map(|d| (me + d) % n).filter(|i| s.status[*i] == Status::Ready).collect();
        let can_stay = s.status[me] == Status::Ready;
        let next = if others.is_empty() {
            if !can_stay {
                if s.status.iter().all(|x| *x == Status::Done) {
                    return s;
                }
                s.abort = Some(format!(
                    "deadlock: {}",
                    s.status
                        .iter()
                        .enumerate()
                        .filter_map(|(i, x)| match x {
                            Status::Blocked(_, w) => Some(format!("thread {} waits for {}", i, w)),
                            _ => None,
                        })
                        .collect::<Vec<_>>()
                        .join(", ")
                ));
                return self.abort_next(me, s);
            }
            me
        }
        else {
            let c = s.choices.get(s.pos).copied().unwrap_or(0) as usize;
            s.pos += 1;
            if c == 0 && can_stay {
                me
            }
            else {
                others[c.saturating_sub(1) % others.len()]
            }
        };
        if next == me {
            return s;
        }
        s.switches += 1;
        s.cur = next;
        self.cv[next].notify_one();
        if s.status[me] == Status::Done {
            return s;
        }
        self.wait_turn(me, s)
    }
    /// When aborted, threads are unwound one after another.
    fn abort_next<'a>(&'a self, me: usize, mut s: MutexGuard<'a, St>) -> MutexGuard<'a, St> {
        if s.status[me] != Status::Done {
            return s;
        }
        if let Some(i) = s.status.iter().position(|x| *x != Status::Done) {
            s.cur = i;
            self.cv[i].notify_one();
        }
        s
    }
    fn done(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.status[me] = Status::Done;
        for x in s.status.iter_mut() {
            if matches!(x, Status::Blocked(OTHERS_DONE, _)) {
                *x = Status::Ready;
            }
        }
        if s.abort.is_some() {
            drop(self.abort_next(me, s));
        }
        else {
            drop(self.switch(me, s));
        }
    }
}

fn check_abort(s: MutexGuard<'_, St>) {
    if s.abort.is_some() {
        drop(s);
        if !std::thread::panicking() {
            std::panic::panic_any(Aborted);
        }
    }
}

/// Another thread may run here.
pub fn point() {
    if let Some((e, me)) = cur() {
        let mut s = e.m.lock().unwrap();
        if s.abort.is_none() {
            s.steps += 1;
            if s.steps > MAX_STEPS {
                s.abort = Some("execution doesn't end".into());
            }
            else {
                s = e.switch(me, s);
            }
        }
        check_abort(s);
    }
}

/// Waits until woken; false if waiting makes no sense anymore.
pub fn block(key: usize, what: &'static str) -> bool {
    let Some((e, me)) = cur()
    else {
        panic!("would wait forever for {}", what)
    };
    let mut s = e.m.lock().unwrap();
    if s.abort.is_none() {
        s.status[me] = Status::Blocked(key, what);
        s = e.switch(me, s);
    }
    if s.abort.is_some() && std::thread::panicking() {
        return false;
    }
    check_abort(s);
    true
}

pub fn wake(key: usize) {
    if let Some((e, _)) = cur() {
        let mut s = e.m.lock().unwrap();
        for x in s.status.iter_mut() {
            if matches!(x, Status::Blocked(k, _) if *k == key) {
                *x = Status::Ready;
            }
        }
    }
}

/// Waits until all other threads are finished.
pub fn others_done() {
    if let Some((e, me)) = cur() {
        loop {
            let s = e.m.lock().unwrap();
            if s.status.iter().enumerate().all(|(i, x)| i == me || *x == Status::Done) {
                return;
            }
            drop(s);
            if !block(OTHERS_DONE, "other threads to finish") {
                return;
            }
        }
    }
}
