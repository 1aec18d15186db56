//! What the user-supplied parts of generated programs (lazy builders, default functions, hooks) talk to.
use std::cell::RefCell;
use std::collections::VecDeque;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Outcome {
    Err(u64),
    Panic,
}

/// Error type of fallible lazy builders.
// Nothing but what is documented is required of an error.
#[derive(Debug)]
pub struct LErr(pub u64);

/// Another one, for fields of the same struct to fail in different ways.
#[derive(Debug)]
pub struct FErr(pub u64);
impl From<LErr> for FErr {
    fn from(e: LErr) -> Self {
        FErr(e.0)
    }
}
impl From<FErr> for LErr {
    fn from(e: FErr) -> Self {
        LErr(e.0)
    }
}

/// Error type of struct builders with a custom error.
#[derive(Debug, Clone, PartialEq)]
pub enum BErr {
    Fx(String),
    Miss(String),
    Post(u64),
}
impl From<fieldx::error::FieldXError> for BErr {
    fn from(e: fieldx::error::FieldXError) -> Self {
        BErr::Fx(fx_err(&e))
    }
}

/// A field may be named either as it is written or as it is called.
pub fn plain_names(s: &str) -> String {
    s.replace("r#", "")
}

pub fn fx_err(e: &fieldx::error::FieldXError) -> String {
    match e {
        fieldx::error::FieldXError::UninitializedField(n) => format!("uninit:{}", plain_names(n)),
        other => format!("other:{}", other),
    }
}

#[derive(Default)]
pub struct Env {
    pub plan:    Vec<VecDeque<Outcome>>,
    pub builds:  Vec<u64>,
    pub defs:    Vec<u64>,
    pub post:    u64,
    pub post_fail: Option<u64>,
    /// What the post-build hook has seen in fields
    pub post_seen: Vec<u64>,
    /// Problems noticed from inside of user code.
    pub notes:   Vec<String>,
}

thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
}

pub fn reset(nfields: usize) {
    ENV.with(|e| {
        *e.borrow_mut() = Env {
            plan: vec![VecDeque::new(); nfields],
            builds: vec![0; nfields],
            defs: vec![0; nfields],
            ..Default::default()
        }
    });
}
pub fn with<R>(f: impl FnOnce(&mut Env) -> R) -> R {
    ENV.with(|e| f(&mut e.borrow_mut()))
}

/// Token of the n-th build attempt of a field given what the builder has read from other fields.
pub fn build_token(idx: usize, n: u64, deps: u64) -> u64 {
    1_000_000_000 * (idx as u64 + 1) + n * 10_000 + deps % 10_000
}

/// Body of fallible lazy builders.
pub fn try_build(idx: usize, deps: u64) -> Result<u64, LErr> {
    let r = with(|e| {
        e.builds[idx] += 1;
        match e.plan[idx].pop_front() {
            None => Ok(build_token(idx, e.builds[idx], deps)),
            Some(o) => Err(o),
        }
    });
    match r {
        Ok(n) => Ok(n),
        Err(Outcome::Err(c)) => Err(LErr(c)),
        Err(Outcome::Panic) => panic!("planned panic"),
    }
}
/// Body of infallible lazy builders.
pub fn build(idx: usize, deps: u64) -> u64 {
    try_build(idx, deps).expect("planned failure")
}
/// Body of default functions.
pub fn def(idx: usize, n: u64) -> u64 {
    with(|e| e.defs[idx] += 1);
    n
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        with(|e| e.notes.push(what.to_string()));
    }
}
/// Body of post-build hooks.
pub fn post() -> Result<(), BErr> {
    with(|e| {
        e.post += 1;
        match e.post_fail.take() {
            None => Ok(()),
            Some(c) => Err(BErr::Post(c)),
        }
    })
}

thread_local! {
    static STASH: RefCell<Option<Box<dyn std::any::Any>>> = RefCell::new(None);
}
/// Keeps something for the test to take after the object is there.
pub fn stash(what: Box<dyn std::any::Any>) {
    STASH.with(|s| *s.borrow_mut() = Some(what));
}
pub fn unstash() -> Option<Box<dyn std::any::Any>> {
    STASH.with(|s| s.borrow_mut().take())
}

/// A pending-once future: lets async builders suspend.
pub struct YieldNow(pub bool);
impl std::future::Future for YieldNow {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            std::task::Poll::Ready(())
        }
        else {
            self.0 = true;
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        }
    }
}
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}

struct Nop;
impl std::task::Wake for Nop {
    fn wake(self: std::sync::Arc<Self>) {}
}
/// Polls a future to completion; a future which stays pending is a deadlock because nothing else is running.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = std::task::Waker::from(std::sync::Arc::new(Nop));
    let mut cx = std::task::Context::from_waker(&w);
    for _ in 0..10_000 {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    panic!("future never completes")
}
/// Same, but other threads may be what the future waits for.
pub fn block_on_shared<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = std::task::Waker::from(std::sync::Arc::new(Nop));
    let mut cx = std::task::Context::from_waker(&w);
    let t0 = std::time::Instant::now();
    while t0.elapsed().as_secs() < 60 {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::yield_now();
    }
    eprintln!("a future didn't complete in a minute");
    std::process::exit(4)
}
