//! Value types put into the fields of generated structs. Every value carries a number (its token).
//! `Nc` values are tracked: the multiset of live ones can be asked for at any time.
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;

/// All that generic parameters of generated structs are known to do, unless what is requested needs more.
pub trait Mk: Sized {
    fn mk(n: u64) -> Self;
    fn tok(&self) -> u64;
}
pub trait Val: Mk + Clone + std::fmt::Debug + PartialEq {}
impl<T: Mk + Clone + std::fmt::Debug + PartialEq> Val for T {}

thread_local! {
    static LIVE: RefCell<BTreeMap<u64, i64>> = RefCell::new(BTreeMap::new());
}
fn live_add(n: u64, d: i64) {
    // The value may be dropped while thread locals are torn down; ignore that.
    let _ = LIVE.try_with(|l| {
        let mut l = l.borrow_mut();
        let e = l.entry(n).or_insert(0);
        *e += d;
        if *e == 0 {
            l.remove(&n);
        }
    });
}
/// Multiset of live tracked values: token -> count.
pub fn live() -> BTreeMap<u64, i64> {
    LIVE.with(|l| l.borrow().clone())
}
pub fn live_reset() {
    LIVE.with(|l| l.borrow_mut().clear());
}

/// Copyable value
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub struct Cp(pub u64);

/// Non-copyable tracked value
#[derive(Debug, PartialEq, Eq, Serialize)]
pub struct Nc {
    n: u64,
}
impl Nc {
    pub fn new(n: u64) -> Self {
        live_add(n, 1);
        Self { n }
    }
}
impl Clone for Nc {
    fn clone(&self) -> Self {
        Self::new(self.n)
    }
}
impl Default for Nc {
    fn default() -> Self {
        Self::new(0)
    }
}
impl Drop for Nc {
    fn drop(&mut self) {
        live_add(self.n, -1);
    }
}
impl<'de> Deserialize<'de> for Nc {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        #[derive(Deserialize)]
        struct X {
            n: u64,
        }
        X::deserialize(d).map(|x| Nc::new(x.n))
    }
}
impl Mk for Nc {
    fn mk(n: u64) -> Self {
        Nc::new(n)
    }
    fn tok(&self) -> u64 {
        self.n
    }
}
impl Mk for Cp {
    fn mk(n: u64) -> Self {
        Cp(n)
    }
    fn tok(&self) -> u64 {
        self.0
    }
}
impl Mk for u64 {
    fn mk(n: u64) -> Self {
        n
    }
    fn tok(&self) -> u64 {
        *self
    }
}
impl Mk for String {
    fn mk(n: u64) -> Self {
        if n == 0 {
            String::new()
        }
        else {
            n.to_string()
        }
    }
    fn tok(&self) -> u64 {
        if self.is_empty() {
            0
        }
        else {
            self.parse().unwrap()
        }
    }
}
impl Mk for Vec<u64> {
    fn mk(n: u64) -> Self {
        if n == 0 {
            vec![]
        }
        else {
            vec![n]
        }
    }
    fn tok(&self) -> u64 {
        assert!(self.len() < 2);
        self.first().copied().unwrap_or(0)
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(n: u64) -> Self {
        if n == 0 {
            None
        }
        else {
            Some(T::mk(n))
        }
    }
    fn tok(&self) -> u64 {
        self.as_ref().map_or(0, |t| t.tok())
    }
}
impl<T: Mk> Mk for (T, u8) {
    fn mk(n: u64) -> Self {
        (T::mk(n), (n % 251) as u8)
    }
    fn tok(&self) -> u64 {
        assert_eq!(self.0.tok() % 251, self.1 as u64);
        self.0.tok()
    }
}

impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(n: u64) -> Self {
        std::array::from_fn(|_| T::mk(n))
    }
    fn tok(&self) -> u64 {
        let t = self[0].tok();
        assert!(self.iter().all(|x| x.tok() == t));
        t
    }
}
/// Can be sent but not shared
#[derive(Debug, Clone, PartialEq, Default)]
pub struct OnlySend(std::cell::Cell<u64>);
/// Can be shared but not sent
#[derive(Debug, Clone, PartialEq, Default)]
pub struct OnlySync(u64, std::marker::PhantomData<std::sync::MutexGuard<'static, ()>>);
/// Can be neither sent nor shared
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Neither(std::rc::Rc<u64>);
impl Mk for OnlySend {
    fn mk(n: u64) -> Self {
        OnlySend(n.into())
    }
    fn tok(&self) -> u64 {
        self.0.get()
    }
}
impl Mk for OnlySync {
    fn mk(n: u64) -> Self {
        OnlySync(n, std::marker::PhantomData)
    }
    fn tok(&self) -> u64 {
        self.0
    }
}
impl Mk for Neither {
    fn mk(n: u64) -> Self {
        Neither(n.into())
    }
    fn tok(&self) -> u64 {
        *self.0
    }
}

thread_local! {
    static STRS: RefCell<BTreeMap<u64, &'static str>> = RefCell::new(BTreeMap::new());
}
impl<'a> Mk for &'a str {
    fn mk(n: u64) -> Self {
        if n == 0 {
            return "";
        }
        STRS.with(|s| *s.borrow_mut().entry(n).or_insert_with(|| Box::leak(n.to_string().into_boxed_str())))
    }
    fn tok(&self) -> u64 {
        if self.is_empty() {
            0
        }
        else {
            self.parse().unwrap()
        }
    }
}
/// Something depending on a constant
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Arr<const N: usize>(pub u64, pub usize);
impl<const N: usize> Default for Arr<N> {
    fn default() -> Self {
        Arr(0, N)
    }
}
impl<const N: usize> Mk for Arr<N> {
    fn mk(n: u64) -> Self {
        Arr(n, N)
    }
    fn tok(&self) -> u64 {
        assert_eq!(self.1, N);
        self.0
    }
}

/// What converting setters are given.
#[derive(Debug, Clone, PartialEq)]
pub struct In(pub u64);
impl From<In> for Cp {
    fn from(v: In) -> Self {
        Cp::mk(v.0)
    }
}
impl From<In> for Nc {
    fn from(v: In) -> Self {
        Nc::mk(v.0)
    }
}
impl From<In> for u64 {
    fn from(v: In) -> Self {
        v.0
    }
}
impl From<In> for String {
    fn from(v: In) -> Self {
        String::mk(v.0)
    }
}
impl From<In> for Vec<u64> {
    fn from(v: In) -> Self {
        Vec::<u64>::mk(v.0)
    }
}
impl From<In> for Option<u64> {
    fn from(v: In) -> Self {
        Option::<u64>::mk(v.0)
    }
}
impl From<In> for Option<Nc> {
    fn from(v: In) -> Self {
        Option::<Nc>::mk(v.0)
    }
}
impl From<In> for (Nc, u8) {
    fn from(v: In) -> Self {
        <(Nc, u8)>::mk(v.0)
    }
}
