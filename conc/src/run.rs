//! Generates cases, runs and judges them.
use crate::lin::linearizable;
use crate::world::{self, Att, Ev, Log, Planned, World};
use crate::{CField, COp, CSpec, Fl, Obs, Subj, K};
use parking_lot::sched;
use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use rt::env::Outcome;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub struct Entry {
    pub spec: CSpec,
    pub make: fn() -> Arc<dyn Subj>,
}

#[derive(Debug, Clone)]
pub struct Case {
    /// Per task, selectors of operations
    pub tasks:   Vec<Vec<u16>>,
    /// Which fields are worked with
    pub focus:   u8,
    pub plan:    Vec<(u8, u8, bool)>,
    pub choices: Vec<u8>,
    pub yields:  Vec<u8>,
    /// Task and the number of polls after which it is dropped
    pub cancel:  Vec<(u8, u8)>,
    pub holder:  bool,
}

#[derive(Debug, Clone)]
pub struct Opts {
    pub prop:    String,
    pub seed:    u64,
    pub cases:   u32,
    pub tasks:   usize,
    pub max_ops: usize,
    pub only:    Option<usize>,
    pub out:     String,
}

#[derive(Debug, Clone, Copy)]
struct Step {
    ob: usize,
    op: COp,
}

/// Fields whose builders may end up with the lock of `f`
fn reaches(fs: &[CField], from: usize, f: usize) -> bool {
    from == f || fs[from].deps.iter().any(|d| reaches(fs, *d, f))
}

struct Plan {
    steps: Vec<Vec<Step>>,
    objs:  usize,
}

fn interpret(s: &CSpec, c: &Case) -> Plan {
    let n = s.fields.len();
    let usable: Vec<usize> = (0..n).filter(|i| !s.fields[*i].ops.is_empty()).collect();
    let mut focus: Vec<usize> = usable.iter().copied().filter(|i| c.focus >> i & 1 == 1).collect();
    if focus.is_empty() {
        focus = usable;
    }
    let mut allowed: Vec<COp> = vec![];
    for f in &focus {
        for k in s.fields[*f].ops {
            let w = if s.fields[*f].fl == Fl::Lazy && matches!(k, K::Get) { 3 } else { 1 };
            for _ in 0..w {
                allowed.push(COp { k: *k, f: *f, v: 0 });
            }
        }
    }
    if !c.holder {
        for k in s.ops {
            allowed.push(COp { k: *k, f: 0, v: 0 });
        }
    }
    // A second object gets some of operations in some of the cases
    let two = !c.holder && c.focus & 0x80 != 0;
    let mut held = None;
    let mut steps = vec![];
    for (t, ops) in c.tasks.iter().enumerate() {
        let mut v = vec![];
        for (i, raw) in ops.iter().enumerate().take(if c.holder && t == 0 { 1 } else { ops.len() }) {
            let mut op = allowed[*raw as usize % allowed.len()];
            op.v = 1 + (t * 16 + i) as u64;
            if c.holder {
                match held {
                    None => held = Some(op.f),
                    Some(h) if t > 0 && reaches(s.fields, op.f, h) => continue,
                    _ => (),
                }
            }
            let ob = if two { (*raw >> 12) as usize % 2 } else { 0 };
            v.push(Step { ob, op });
        }
        steps.push(v);
    }
    Plan { steps, objs: if two { 2 } else { 1 } }
}

const STRUCT_OPS: &[K] = &[K::EqClone, K::EqMutated, K::CloneSwap, K::DebugFmt];

fn do_struct_op(objs: &[Arc<dyn Subj>], st: &Step, nf: usize) {
    let o = &objs[st.ob];
    match st.op.k {
        K::EqClone => {
            let _ = o.eq_other(&*objs[objs.len() - 1 - st.ob]);
        }
        K::EqMutated => {
            let _ = o.eq_other(&**o);
        }
        K::CloneSwap => {
            let start = world::with(|l| {
                l.clock += 1;
                l.clock
            });
            let Obs::List(vs) = o.call(&st.op)
            else { unreachable!() };
            world::with(|l| {
                l.clock += 1;
                for (i, v) in vs.into_iter().enumerate() {
                    if v != Obs::U {
                        let e = Ev {
                            task: world::task(),
                            gf: st.ob * nf + i,
                            k: K::Counts,
                            v: 0,
                            obs: Some(v),
                            start,
                            end: l.clock,
                        };
                        l.events.push(e);
                    }
                }
            });
        }
        _ => {
            o.call(&st.op);
        }
    }
}

fn message(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

/// Makes a call, which may end in a panic of the builder.
fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if p.is::<Planned>() => None,
        Err(p) if p.is::<sched::Aborted>() => resume_unwind(p),
        Err(p) => {
            world::note(format!("panicked: {}", message(&*p)));
            None
        }
    }
}

fn sync_step(objs: &[Arc<dyn Subj>], st: &Step, nf: usize) {
    if STRUCT_OPS.contains(&st.op.k) {
        guarded(|| do_struct_op(objs, st, nf));
        return;
    }
    let i = world::begin(st.ob * nf + st.op.f, st.op.k, st.op.v);
    let r = guarded(|| objs[st.ob].call(&st.op));
    world::end(i, r.unwrap_or(Obs::P));
}

async fn async_step(objs: &[Arc<dyn Subj>], st: &Step, nf: usize) {
    let i = world::begin(st.ob * nf + st.op.f, st.op.k, st.op.v);
    let r = objs[st.ob].acall(&st.op).await;
    world::end(i, r);
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Polls tasks in the order told by choices. Some are dropped halfway.
fn execute(tasks: Vec<Pin<Box<dyn Future<Output = ()> + '_>>>, choices: &[u8], cancel: &[Option<u32>], first: usize) -> Option<String> {
    let n = tasks.len();
    let mut tasks: Vec<Option<_>> = tasks.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let mut polls = vec![0u32; n];
    let (mut pos, mut last, mut steps) = (0, 0, 0);
    loop {
        let ready: Vec<usize> = (0..n)
            .map(|d| (last + d) % n)
            .filter(|i| tasks[*i].is_some() && (flags[*i].0.load(Ordering::SeqCst) || cancel[*i].is_some_and(|c| polls[*i] >= c)))
            .collect();
        if ready.is_empty() {
            let left = tasks.iter().enumerate().filter(|(_, t)| t.is_some()).map(|(i, _)| (first + i).to_string()).collect::<Vec<_>>();
            if left.is_empty() {
                return None;
            }
            return Some(format!("deadlock: nothing wakes task(s) {} which will never finish", left.join(", ")));
        }
        steps += 1;
        if steps > 20_000 {
            return Some("execution doesn't end".into());
        }
        let c = if ready.len() > 1 {
            pos += 1;
            choices.get(pos - 1).copied().unwrap_or(0) as usize
        }
        else {
            0
        };
        let t = ready[c % ready.len()];
        last = t;
        world::set_task(first + t);
        if cancel[t].is_some_and(|c| polls[t] >= c) {
            tasks[t] = None;
            world::with(|l| {
                if !l.stacks[first + t].is_empty() {
                    l.cancelled += 1;
                }
                l.stacks[first + t].clear();
            });
        }
        else {
            flags[t].0.store(false, Ordering::SeqCst);
            polls[t] += 1;
            let w = Waker::from(flags[t].clone());
            let mut cx = Context::from_waker(&w);
            let f = tasks[t].as_mut().unwrap();
            match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
                Ok(Poll::Pending) => continue,
                Ok(Poll::Ready(())) => tasks[t] = None,
                Err(p) => {
                    if !p.is::<Planned>() {
                        world::note(format!("panicked: {}", message(&*p)));
                    }
                    tasks[t] = None;
                    let i = world::with(|l| l.stacks[first + t].first().copied());
                    if let Some(i) = i {
                        world::end(i, Obs::P);
                    }
                }
            }
        }
        world::with(|l| {
            l.done[first + t] = true;
            if let Some(w) = l.holding.take() {
                w.wake();
            }
        });
    }
}

#[derive(Default)]
pub struct Seen {
    overlap:   bool,
    write_overlap: bool,
    built:     bool,
    failed:    bool,
    cancelled: bool,
    switches:  usize,
    aborted:   bool,
    clones:    bool,
    held:      bool,
}

fn describe(s: &CSpec, l: &Log) -> Vec<String> {
    let mut out: Vec<String> = l
        .events
        .iter()
        .map(|e| {
            let n = s.fields.len();
            format!(
                "[{}..{}] task {} object {} {}.{:?}({}) -> {}",
                e.start,
                if e.end == u64::MAX { "never".into() } else { e.end.to_string() },
                e.task,
                e.gf / n,
                s.fields[e.gf % n].name,
                e.k,
                e.v,
                e.obs.as_ref().map_or("cancelled".into(), |o| format!("{:?}", o))
            )
        })
        .collect();
    for (g, a) in l.attempts.iter().enumerate() {
        if !a.is_empty() {
            out.push(format!("builder calls of object {} {}: {:?}", g / s.fields.len(), s.fields[g % s.fields.len()].name, a));
        }
    }
    out
}

pub fn run_case(e: &Entry, c: &Case, trace: &mut Vec<String>, seen: &mut Seen) -> Result<(), String> {
    let s = &e.spec;
    let nf = s.fields.len();
    rt::vals::live_reset();
    let p = interpret(s, c);
    let nt = p.steps.len();
    let objs: Vec<Arc<dyn Subj>> = (0..p.objs).map(|_| (e.make)()).collect();
    let mut plan = vec![vec![]; nf * p.objs];
    for (f, n, err) in &c.plan {
        let g = *f as usize % plan.len();
        let fs = &s.fields[g % nf];
        if fs.fl == Fl::Lazy {
            let o = if *err && fs.fallible { Outcome::Err(500 + *f as u64) } else { Outcome::Panic };
            while plan[g].len() < *n as usize {
                plan[g].push(None);
            }
            plan[g].push(Some(o));
        }
    }
    let w: World = Arc::new(Mutex::new(Log {
        attempts: vec![vec![]; nf * p.objs],
        stacks: vec![vec![]; nt + 1],
        yields: c.yields.clone(),
        plan,
        addrs: objs.iter().map(|o| o.addr()).collect(),
        nfields: nf,
        holder: if c.holder { Some(0) } else { None },
        done: vec![false; nt],
        ..Default::default()
    }));
    world::enter(&w, nt);
    // What the objects are like when everything is over
    let mut last = vec![];
    for ob in 0..p.objs {
        for (f, fs) in s.fields.iter().enumerate() {
            for k in [K::Has, K::Get, K::Has, K::Clear, K::Has] {
                if fs.ops.contains(&k) {
                    last.push(Step { ob, op: COp { k, f, v: 0 } });
                }
            }
        }
    }
    let abort = if s.asy {
        let mut tasks: Vec<Pin<Box<dyn Future<Output = ()> + '_>>> = vec![];
        for steps in &p.steps {
            let objs = &objs;
            tasks.push(Box::pin(async move {
                for st in steps {
                    async_step(objs, st, nf).await;
                }
            }));
        }
        let mut cancel = vec![None; nt];
        for (t, n) in &c.cancel {
            let t = *t as usize % nt;
            if !(c.holder && t == 0) {
                cancel[t] = Some(*n as u32);
            }
        }
        let r = execute(tasks, &c.choices, &cancel, 0);
        if r.is_none() {
            world::set_task(nt);
            world::with(|l| {
                l.holder = None;
                l.done.push(false)
            });
            let objs = &objs;
            // A planned failure ends a task
            let tail = last
                .chunks(1)
                .map(|st| {
                    let b: Pin<Box<dyn Future<Output = ()> + '_>> = Box::pin(async move { async_step(objs, &st[0], nf).await });
                    b
                })
                .collect::<Vec<_>>();
            let mut r = None;
            for b in tail {
                r = r.or_else(|| execute(vec![b], &[], &[None], nt).map(|m| format!("afterwards: {}", m)));
            }
            r
        }
        else {
            r
        }
    }
    else {
        let bodies = p
            .steps
            .iter()
            .enumerate()
            .map(|(t, steps)| {
                let (objs, steps, w) = (objs.clone(), steps.clone(), w.clone());
                let b: Box<dyn FnOnce() + Send> = Box::new(move || {
                    world::enter(&w, t);
                    for st in &steps {
                        sched::point();
                        sync_step(&objs, st, nf);
                    }
                });
                b
            })
            .collect();
        let out = sched::run(c.choices.clone(), bodies);
        seen.switches = out.switches;
        if out.abort.is_none() {
            w.lock().unwrap().holder = None;
            for st in &last {
                sync_step(&objs, st, nf);
            }
        }
        out.abort
    };
    let l = w.lock().unwrap();
    *trace = describe(s, &l);
    if let Some(a) = abort {
        seen.aborted = true;
        return Err(a);
    }
    seen.cancelled = l.cancelled > 0;
    seen.built = l.attempts.iter().any(|a| !a.is_empty());
    seen.failed = l.attempts.iter().any(|a| a.iter().any(|a| matches!(a, Att::Err(_) | Att::Panic)));
    seen.clones = l.events.iter().any(|e| e.k == K::Counts);
    seen.held = c.holder;
    if !l.notes.is_empty() {
        return Err(l.notes.join("; "));
    }
    for g in 0..nf * p.objs {
        let evs: Vec<&Ev> = l.events.iter().filter(|e| e.gf == g).collect();
        for (i, a) in evs.iter().enumerate() {
            for b in &evs[i + 1..] {
                if a.task != b.task && a.start < b.end && b.start < a.end && a.task < nt && b.task < nt {
                    seen.overlap = true;
                    let ro = |e: &Ev| matches!(e.k, K::Has | K::Get | K::Read | K::WPeek | K::GetMutPeek | K::Counts);
                    seen.write_overlap |= !ro(a) || !ro(b);
                }
            }
        }
        let fs = &s.fields[g % nf];
        if let Some(a) = l.attempts[g].iter().find(|a| **a == Att::Running) {
            return Err(format!("builder of {} is still {:?}", fs.name, a));
        }
        if !linearizable(fs.fl, fs.init, &evs, &l.attempts[g]) {
            return Err(format!("calls on `{}` of object {} can't be explained by any order of them", fs.name, g / nf));
        }
    }
    Ok(())
}

fn strategy(o: &Opts, asy: bool) -> impl Strategy<Value = Case> {
    let choice = if asy {
        prop_oneof![2 => Just(0u8), 3 => 1u8..6].boxed()
    }
    else {
        prop_oneof![3 => Just(0u8), 2 => 1u8..4].boxed()
    };
    let rare = prop_oneof![9 => Just(0u8), 1 => 1u8..4].boxed();
    let choices = prop_oneof![prop::collection::vec(choice, 0..160), prop::collection::vec(rare, 40..200)];
    let cancel = if asy { prop::collection::vec((0u8..5, 0u8..10), 0..3).boxed() } else { Just(vec![]).boxed() };
    (
        prop::collection::vec(prop::collection::vec(any::<u16>(), 1..=o.max_ops), 2..=o.tasks),
        any::<u8>(),
        prop::collection::vec((any::<u8>(), 0u8..3, any::<bool>()), 0..3),
        choices,
        prop::collection::vec(0u8..4, 0..24),
        cancel,
        prop::bool::weighted(0.15),
    )
        .prop_map(|(tasks, focus, plan, choices, yields, cancel, holder)| Case { tasks, focus, plan, choices, yields, cancel, holder })
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial:  HashSet<u64>,
    classes:     BTreeMap<String, u64>,
    samples:     Vec<serde_json::Value>,
    failures:    Vec<serde_json::Value>,
}

fn nontrivial(prop: &str, s: &Seen) -> bool {
    match prop {
        "C02" => s.overlap && s.built && s.switches > 1,
        "C03" => s.overlap && s.built || s.cancelled,
        _ => s.write_overlap,
    }
}

fn run_subject(e: &'static Entry, o: &Opts, stats: &mut Stats) {
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&o.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&(e.spec.id as u64).to_le_bytes());
    let cfg = Config { cases: o.cases, failure_persistence: None, max_shrink_iters: 4000, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    let cell = RefCell::new(&mut *stats);
    let failing = std::cell::Cell::new(false);
    let res = runner.run(&strategy(o, e.spec.asy), |case| {
        let mut trace = vec![];
        let mut seen = Seen::default();
        let r = run_case(e, &case, &mut trace, &mut seen);
        let mut stats = cell.borrow_mut();
        if !failing.get() {
            stats.evaluations += 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (e.spec.src, &trace).hash(&mut h);
            if nontrivial(&o.prop, &seen) && stats.nontrivial.insert(h.finish()) && stats.samples.len() < 3 {
                stats.samples.push(serde_json::json!({"struct": e.spec.src, "history": trace}));
            }
            let mut cl = |n: &str, c: bool| {
                if c {
                    *stats.classes.entry(n.to_string()).or_insert(0) += 1;
                }
            };
            cl("calls on a field overlap", seen.overlap);
            cl("a change overlaps with another call", seen.write_overlap);
            cl("some lazy built", seen.built);
            cl("builder failed", seen.failed);
            cl("cancelled in flight", seen.cancelled);
            cl("cloned meanwhile", seen.clones);
            cl("something held until others finish", seen.held);
        }
        match r {
            Ok(()) => Ok(()),
            Err(m) => {
                failing.set(true);
                Err(TestCaseError::fail(m))
            }
        }
    });
    match res {
        Ok(()) => (),
        Err(TestError::Fail(_, case)) => {
            let mut trace = vec![];
            let r = run_case(e, &case, &mut trace, &mut Seen::default());
            stats.failures.push(serde_json::json!({
                "subject": e.spec.id,
                "struct": e.spec.src,
                "case": format!("{:?}", case),
                "trace": trace,
                "message": r.err().unwrap_or_else(|| "did not reproduce on rerun".into()),
            }));
        }
        Err(TestError::Abort(r)) => {
            eprintln!("aborted: {}", r);
            std::process::exit(3);
        }
    }
}

pub fn main_with(entries: &'static [Entry]) {
    let mut o = Opts { prop: "C00".into(), seed: 1, cases: 50, tasks: 3, max_ops: 3, only: None, out: "/dev/stdout".into() };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        match k.as_str() {
            "--prop" => o.prop = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--cases" => o.cases = v.parse().unwrap(),
            "--tasks" => o.tasks = v.parse().unwrap(),
            "--max-ops" => o.max_ops = v.parse().unwrap(),
            "--only" => o.only = Some(v.parse().unwrap()),
            "--out" => o.out = v,
            _ => panic!("bad option {}", k),
        }
    }
    std::panic::set_hook(Box::new(|_| ()));
    let mut stats = Stats::default();
    for e in entries {
        if o.only.is_none_or(|x| x == e.spec.id) {
            run_subject(e, &o, &mut stats);
        }
    }
    let _ = std::panic::take_hook();
    let out = serde_json::json!({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": stats.nontrivial.len(),
        "classes": stats.classes,
        "samples": stats.samples,
        "failures": stats.failures,
    });
    std::fs::File::create(&o.out).and_then(|mut f| writeln!(f, "{}", out)).expect("cannot write the report");
}
