//! Runs generated operation sequences on the subjects of one generated program against the model.
use crate::model::{required, Model};
use crate::spec::*;
use crate::{env, vals};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone, PartialEq)]
pub struct Case {
    pub ctor: Ctor,
    pub ops: Vec<Op>,
}

#[derive(Debug, Clone)]
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub cases: u32,
    pub max_ops: usize,
    pub only: Option<usize>,
    pub out: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failures: Vec<serde_json::Value>,
}

/// All operations which can be made on the subject, repeated by weight.
fn allowed(s: &Spec, prop: &str) -> Vec<(usize, K)> {
    let mut a = vec![];
    for (i, f) in s.fields.iter().enumerate() {
        for k in f.ops {
            let w = match (prop, k) {
                ("C05", K::PlanErr | K::PlanPanic) => 2,
                ("C05", K::Get | K::GetMut) => 2,
                ("C01", K::Get) => 2,
                ("C04", K::Set | K::Clear | K::Has) => 2,
                _ => 1,
            };
            for _ in 0..w {
                a.push((i, *k));
            }
        }
    }
    for k in s.ops {
        a.push((0, *k));
    }
    a
}

fn value() -> impl Strategy<Value = u64> {
    prop_oneof![5 => 1u64..1000, 1 => Just(0u64), 1 => 1u64..4]
}

fn ctor_strategy(s: &'static Spec) -> BoxedStrategy<Ctor> {
    let mut alts: Vec<BoxedStrategy<Ctor>> = vec![];
    for c in s.ctors {
        match c {
            CK::New => alts.push(Just(Ctor::New).boxed()),
            CK::Default => alts.push(Just(Ctor::Default).boxed()),
            CK::Builder => {
                let inb: Vec<usize> = (0..s.fields.len()).filter(|i| s.fields[*i].inb).collect();
                let req: Vec<usize> = inb.iter().copied().filter(|i| required(&s.fields[*i])).collect();
                let step = {
                    let inb = inb.clone();
                    let fallible = s.pb == Pb::Fallible;
                    (0usize..(inb.len() * 3 + 2).max(1), value()).prop_map(move |(x, v)| {
                        if x < inb.len() * 3 {
                            BStep::Set(inb[x % inb.len()], v)
                        }
                        else if fallible && v % 5 == 0 {
                            BStep::PostFail(v)
                        }
                        else {
                            BStep::Build
                        }
                    })
                };
                // Arbitrary attempts, then all the required ones in an arbitrary order, then the final build.
                let tail = Just(req).prop_shuffle();
                let req_vals = prop::collection::vec(value(), inb.len() + 1);
                alts.push(
                    (
                        prop::collection::vec(step, 0..8),
                        tail,
                        req_vals,
                        prop::bool::weighted(0.85),
                    )
                        .prop_map(|(mut steps, req, vals, complete)| {
                            if complete {
                                for (n, f) in req.into_iter().enumerate() {
                                    if !steps.iter().any(|s| matches!(s, BStep::Set(g, _) if *g == f)) || vals[n] % 2 == 0 {
                                        steps.push(BStep::Set(f, vals[n]));
                                    }
                                }
                            }
                            steps.push(BStep::Build);
                            Ctor::Builder(steps)
                        })
                        .boxed(),
                );
            }
            CK::De => {
                let n = s.fields.len();
                // Ordinary fields without a default are present most of the time: an input which is refused shows nothing
                // else.
                let need: Vec<bool> = s
                    .fields
                    .iter()
                    .map(|f| {
                        f.fl == Fl::Ord
                            && f.ser.as_ref().map_or(false, |x| {
                                x.de && x.default == SDef::None && !x.opt_ty && s.de_default.is_none()
                            })
                    })
                    .collect();
                alts.push(
                    (prop::collection::vec((0u8..6, 1u64..1000), n), prop::bool::weighted(0.8))
                        .prop_map(move |(v, complete)| {
                            Ctor::De(
                                v.into_iter()
                                    .enumerate()
                                    .map(|(i, (k, v))| {
                                        if complete && need[i] {
                                            return Pres::Val(v);
                                        }
                                        match k {
                                            0 | 1 => Pres::Missing,
                                            2 => Pres::Null,
                                            _ => Pres::Val(v),
                                        }
                                    })
                                    .collect(),
                            )
                        })
                        .boxed(),
                );
            }
        }
    }
    proptest::strategy::Union::new(alts).boxed()
}

pub fn strategy(s: &'static Spec, o: &Opts) -> BoxedStrategy<Case> {
    let all = allowed(s, &o.prop);
    let ctor = ctor_strategy(s);
    if all.is_empty() {
        return ctor.prop_map(|ctor| Case { ctor, ops: vec![] }).boxed();
    }
    let n = all.len();
    let op = (0..n, value()).prop_map(move |(x, v)| Op {
        f: all[x].0,
        k: all[x].1,
        v,
    });
    (ctor, prop::collection::vec(op, 0..=o.max_ops))
        .prop_map(|(ctor, ops)| Case { ctor, ops })
        .boxed()
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

/// What one case was like; for classification.
#[derive(Default, Debug)]
pub struct Seen {
    pub builds: u64,
    pub rereads: u64,
    pub rebuilt: bool,
    pub fails: u64,
    pub retried: bool,
    pub replaced: u64,
    pub cleared: u64,
    pub overlaps: u64,
    pub rts: u64,
    pub clones: u64,
    pub handles: u64,
    pub missing: u64,
    pub partial: bool,
    pub refused: bool,
    pub no_object: bool,
    pub mut_then_read: bool,
    pub myself: u64,
}

pub fn run_case(e: &'static Entry, case: &Case, trace: &mut Vec<String>, seen: &mut Seen) -> Result<(), String> {
    let s = &e.spec;
    env::reset(s.fields.len());
    vals::live_reset();
    let mut m = Model::new(s);
    let mut exp_log = vec![];
    let exp = m.construct(&case.ctor, &mut exp_log);
    let mut log = vec![];
    // Post-build failures are planned by build steps
    let got = catch_unwind(AssertUnwindSafe(|| (e.make)(s, &case.ctor, &mut log)));
    let subject = match got {
        Ok(v) => v,
        Err(_) => return Err(format!("construction panicked: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    };
    trace.push(format!("{:?} -> {:?}", case.ctor, log));
    if log != exp_log {
        return Err(format!("construction {:?}: expected {:?}, got {:?}", case.ctor, exp_log, log));
    }
    if let Ctor::Builder(steps) = &case.ctor {
        seen.missing += log.iter().filter(|l| matches!(l, Obs::S(_))).count() as u64;
        let given: HashSet<usize> = steps.iter().filter_map(|s| if let BStep::Set(f, _) = s { Some(*f) } else { None }).collect();
        seen.partial = !given.is_empty() && given.len() < s.fields.iter().filter(|f| f.inb).count();
    }
    if let Ctor::De(p) = &case.ctor {
        seen.partial = p.iter().any(|x| matches!(x, Pres::Missing | Pres::Null));
    }
    if subject.is_some() != exp {
        return Err(format!("construction {:?}: object expected: {}, got: {}", case.ctor, exp, subject.is_some()));
    }
    check_env(&m, !matches!(case.ctor, Ctor::De(_)), "construction")?;
    let Some(mut subject) = subject
    else {
        seen.no_object = true;
        if !vals::live().is_empty() {
            return Err(format!("values leaked by a refused construction: {:?}", vals::live()));
        }
        return Ok(());
    };
    check_live(&m, "construction")?;

    let mut failed: HashSet<usize> = HashSet::new();
    let mut mutated: HashSet<usize> = HashSet::new();
    for (n, op) in case.ops.iter().enumerate() {
        let before: u64 = m.builds.iter().sum();
        // Operations on the whole object are given for the first field, if there is any.
        let name = s.fields.get(op.f).map_or("", |f| f.name);
        let bf = m.builds.get(op.f).copied().unwrap_or(0);
        // Formatting is told what to look for.
        let hinted = Op { v: m.st.get(op.f).copied().flatten().unwrap_or(u64::MAX), ..op.clone() };
        let op = if op.k == K::Dbg { &hinted } else { op };
        let expected = m.step(op);
        let built: u64 = m.builds.iter().sum::<u64>() - before;
        seen.builds += built;
        let real = apply(&mut *subject, op);
        trace.push(format!("{}.{:?}({}) -> {:?}", name, op.k, op.v, real));
        if real != expected {
            let why = if real == Obs::P {
                format!(" ({})", PANIC_MSG.with(|p| p.borrow().clone()))
            }
            else {
                String::new()
            };
            return Err(format!(
                "step {}: {:?} on field '{}' (value {}): expected {:?}, got {:?}{}",
                n, op.k, name, op.v, expected, real, why
            ));
        }
        check_env(&m, false, &format!("step {} {:?}", n, op))?;
        check_live(&m, &format!("step {} {:?}", n, op))?;
        match op.k {
            K::Get | K::Read | K::GetMutPeek | K::LazyInit => {
                if built == 0 && s.fields[op.f].fl == Fl::Lazy && m.builds[op.f] > 0 {
                    seen.rereads += 1;
                }
                if bf > 0 && m.builds[op.f] > bf {
                    seen.rebuilt = true;
                }
                if matches!(expected, Obs::E(_) | Obs::P) {
                    seen.fails += 1;
                    failed.insert(op.f);
                }
                else if failed.contains(&op.f) {
                    seen.retried = true;
                }
                if mutated.contains(&op.f) {
                    seen.mut_then_read = true;
                }
            }
            K::GetMut | K::Write => {
                if matches!(expected, Obs::E(_) | Obs::P) {
                    seen.fails += 1;
                    failed.insert(op.f);
                }
                mutated.insert(op.f);
                seen.replaced += 1
            }
            K::Set | K::WStore => {
                mutated.insert(op.f);
                seen.replaced += 1
            }
            K::Clear | K::WClear | K::WStoreClear => {
                if expected != Obs::O(None) {
                    seen.cleared += 1
                }
            }
            K::OvGetMut | K::OvMutGet | K::OvMutMut | K::OvGetSet | K::OvMutSet | K::OvGetClear | K::OvMutHas => seen.overlaps += 1,
            K::SerdeRt => seen.rts += 1,
            K::CloneSwap | K::EqClone | K::EqMutated | K::EqCleared | K::Unwrap | K::Conv => seen.clones += 1,
            K::RcClone => seen.handles += 1,
            K::Myself | K::MyselfDown => seen.myself += 1,
            _ => (),
        }
    }

    // Final sweep: everything which can be looked at
    m.plan.iter_mut().for_each(|p| p.clear());
    env::with(|e| e.plan.iter_mut().for_each(|p| p.clear()));
    for k in [K::Has, K::WPeek, K::Get, K::Read, K::GetMutPeek, K::Has] {
        for (f, fs) in s.fields.iter().enumerate() {
            if !fs.ops.contains(&k) {
                continue;
            }
            let op = Op { f, k, v: 1 };
            let expected = m.step(&op);
            let real = apply(&mut *subject, &op);
            trace.push(format!("{}.{:?} -> {:?}", fs.name, k, real));
            if real != expected {
                return Err(format!(
                    "final sweep: {:?} of field '{}': expected {:?}, got {:?}",
                    k, fs.name, expected, real
                ));
            }
            check_env(&m, false, "final sweep")?;
        }
    }
    check_live(&m, "final sweep")?;
    let fin = catch_unwind(AssertUnwindSafe(|| subject.finish()));
    match fin {
        Ok(Obs::U) => (),
        Ok(o) => return Err(format!("after the last use: {:?}", o)),
        Err(_) => return Err(format!("dropping panicked: {}", PANIC_MSG.with(|p| p.borrow().clone()))),
    }
    if !vals::live().is_empty() {
        return Err(format!("values still alive after the struct is gone: {:?}", vals::live()));
    }
    Ok(())
}

fn apply(s: &mut dyn Subject, op: &Op) -> Obs {
    match op.k {
        K::PlanErr => {
            env::with(|e| e.plan[op.f].push_back(env::Outcome::Err(op.v)));
            Obs::U
        }
        K::PlanPanic => {
            env::with(|e| e.plan[op.f].push_back(env::Outcome::Panic));
            Obs::U
        }
        _ => match catch_unwind(AssertUnwindSafe(|| s.apply(op))) {
            Ok(o) => o,
            Err(_) => Obs::P,
        },
    }
}

fn check_env(m: &Model, ctor: bool, at: &str) -> Result<(), String> {
    env::with(|e| {
        if e.builds != m.builds {
            return Err(format!(
                "after {}: lazy builder calls per field: expected {:?}, got {:?}",
                at, m.builds, e.builds
            ));
        }
        if ctor && e.defs != m.defs {
            return Err(format!(
                "after {}: default evaluations per field: expected {:?}, got {:?}",
                at, m.defs, e.defs
            ));
        }
        if e.post != m.post || e.post_seen != m.post_seen {
            return Err(format!(
                "after {}: post-build hook calls: expected {} seeing {:?}, got {} seeing {:?}",
                at, m.post, m.post_seen, e.post, e.post_seen
            ));
        }
        if !e.notes.is_empty() {
            return Err(format!("after {}: {:?}", at, e.notes));
        }
        Ok(())
    })
}

fn check_live(m: &Model, at: &str) -> Result<(), String> {
    let held = m.held();
    let live = vals::live();
    if held != live {
        return Err(format!(
            "after {}: values the struct must hold (token: count): {:?}, alive: {:?}",
            at, held, live
        ));
    }
    Ok(())
}

/// The rule by which a case counts as non-trivial, per property.
fn nontrivial(prop: &str, case: &Case, s: &Seen) -> bool {
    match prop {
        "C01" => s.builds > 0 && (s.rereads > 0 || s.rebuilt),
        "C04" => s.replaced > 0 && s.cleared > 0,
        "C05" => s.fails > 0 && s.retried,
        "C06" => s.mut_then_read,
        "C07" => s.missing > 0 || s.partial,
        "C08" => !s.no_object,
        "C09" => s.overlaps > 0 && s.replaced > 0,
        "C10" => s.myself > 0 && (s.handles > 0 || s.builds > 0),
        "C11" => s.rts > 0 || s.partial,
        "C12" => s.clones > 0,
        _ => case.ops.len() > 3 && !s.no_object,
    }
}

pub fn main_with(entries: &'static [Entry]) {
    let mut o = Opts {
        prop: "C00".into(),
        seed: 1,
        cases: 50,
        max_ops: 20,
        only: None,
        out: "/dev/stdout".into(),
    };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().expect("value");
        match k.as_str() {
            "--prop" => o.prop = v,
            "--seed" => o.seed = v.parse().unwrap(),
            "--cases" => o.cases = v.parse().unwrap(),
            "--max-ops" => o.max_ops = v.parse().unwrap(),
            "--only" => o.only = Some(v.parse().unwrap()),
            "--out" => o.out = v,
            _ => panic!("bad option {}", k),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let msg = i.to_string();
        if std::env::var_os("RT_PANICS").is_some() {
            eprintln!("{}", msg);
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = msg);
    }));
    let mut stats = Stats::default();
    for e in entries {
        if o.only.map_or(false, |x| x != e.spec.id) {
            continue;
        }
        let peers: Vec<&'static Entry> = match e.spec.group {
            0 => vec![e],
            g => entries.iter().filter(|p| p.spec.group == g).collect(),
        };
        if peers[0].spec.id == e.spec.id {
            run_subject(&peers, &o, &mut stats);
        }
    }
    let _ = std::panic::take_hook();
    let out = serde_json::json!({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": stats.nontrivial.len(),
        "classes": stats.classes,
        "samples": stats.samples,
        "failures": stats.failures,
    });
    std::fs::File::create(&o.out)
        .and_then(|mut f| writeln!(f, "{}", out))
        .expect("cannot write the report");
}

thread_local! {
    static RUNTIME: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().expect("a runtime");
}

/// Whatever is done with objects can be done within an async runtime as well, where blocking is not allowed.
fn somewhere<R>(e: &'static Entry, f: impl FnOnce() -> R) -> R {
    if e.spec.id % 2 == 0 {
        return f();
    }
    RUNTIME.with(|r| r.block_on(async { f() }))
}

/// Runs a case on all the variants.
fn run_all(peers: &[&'static Entry], case: &Case, trace: &mut Vec<String>, seen: &mut Seen) -> Result<(), (usize, String)> {
    for (i, e) in peers.iter().enumerate() {
        let mut t = vec![];
        let mut s = Seen::default();
        let r = somewhere(e, || run_case(e, case, &mut t, &mut s));
        let differ = i > 0 && r.is_ok() && t != *trace;
        let first = trace.clone();
        if i == 0 || r.is_err() || differ {
            *trace = t;
            *seen = s;
        }
        if let Err(m) = r {
            return Err((i, m));
        }
        if differ {
            return Err((i, format!("another variant of the declaration gave {:?}", first)));
        }
    }
    Ok(())
}

fn run_subject(peers: &[&'static Entry], o: &Opts, stats: &mut Stats) {
    let e = peers[0];
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&o.seed.to_le_bytes());
    seed[8..16].copy_from_slice(&(e.spec.id as u64).to_le_bytes());
    let cfg = Config {
        cases: o.cases,
        failure_persistence: None,
        max_shrink_iters: 20_000,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
    for e in peers {
        let wrong = match std::panic::catch_unwind(e.facts) {
            Ok(w) => w,
            Err(p) => vec![format!(
                "panicked: {}",
                p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )],
        };
        if !wrong.is_empty() {
            stats.failures.push(serde_json::json!({
                "subject": e.spec.id, "struct": e.spec.src, "case": "the type itself", "trace": [], "message": wrong.join("; "),
            }));
            return;
        }
    }
    let st = strategy(&e.spec, o);
    let cell = RefCell::new(&mut *stats);
    let failing = std::cell::Cell::new(false);
    let res = runner.run(&st, |case| {
        let mut trace = vec![];
        let mut seen = Seen::default();
        let r = run_all(peers, &case, &mut trace, &mut seen);
        let mut stats = cell.borrow_mut();
        if !failing.get() {
            stats.evaluations += 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (e.spec.src, format!("{:?}", case)).hash(&mut h);
            if nontrivial(&o.prop, &case, &seen) && stats.nontrivial.insert(h.finish()) && stats.samples.len() < 3 && trace.len() > 3 {
                stats.samples.push(serde_json::json!({"struct": e.spec.src, "case": trace}));
            }
            let mut cl = |n: &str, c: bool| {
                if c {
                    *stats.classes.entry(n.to_string()).or_insert(0) += 1;
                }
            };
            cl("some lazy built", seen.builds > 0);
            cl("reread of a built lazy", seen.rereads > 0);
            cl("lazy rebuilt after clear", seen.rebuilt);
            cl("builder failed", seen.fails > 0);
            cl("retried after failure", seen.retried);
            cl("value replaced", seen.replaced > 0);
            cl("value cleared", seen.cleared > 0);
            cl("overlapping borrow", seen.overlaps > 0);
            cl("serde round trip", seen.rts > 0);
            cl("cloned or compared", seen.clones > 0);
            cl("several handles", seen.handles > 0);
            cl("asked for itself", seen.myself > 0);
            cl("builder reported missing", seen.missing > 0);
            cl("partial input", seen.partial);
            cl("no object", seen.no_object);
            cl("several variants", peers.len() > 1);
        }
        match r {
            Ok(()) => Ok(()),
            Err((_, msg)) => {
                failing.set(true);
                Err(TestCaseError::fail(msg))
            }
        }
    });
    match res {
        Ok(()) => (),
        Err(TestError::Fail(_, case)) => {
            let mut trace = vec![];
            let r = run_all(peers, &case, &mut trace, &mut Seen::default());
            let e = match &r {
                Err((i, _)) => peers[*i],
                Ok(()) => e,
            };
            let f = serde_json::json!({
                "subject": e.spec.id,
                "struct": e.spec.src,
                "case": format!("{:?}", case),
                "trace": trace,
                "message": r.err().map(|e| e.1).unwrap_or_else(|| "did not reproduce on rerun".into()),
            });
            stats.failures.push(f);
        }
        Err(TestError::Abort(r)) => {
            eprintln!("aborted: {}", r);
            std::process::exit(3);
        }
    }
}
