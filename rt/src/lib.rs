pub mod env;
pub mod model;
pub mod run;
pub mod spec;
pub mod vals;
pub use run::main_with;
pub use spec::*;
pub use vals::{Arr, Cp, In, Mk, Nc, Neither, OnlySend, OnlySync, Val};
pub use serde_json;

pub fn js<T: Val + serde::Serialize>(n: u64) -> serde_json::Value {
    serde_json::to_value(T::mk(n)).unwrap()
}
pub fn need_send_ref<T: Send>(_: &T) {}
pub fn need_send<F: std::future::Future + Send>(f: F) -> F {
    f
}
/// Runs something which may panic: true if it did not.
pub fn survives(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok()
}

pub fn mk<T: Val>(n: u64) -> T {
    T::mk(n)
}

// ---- Asking whether something exists, without requiring it to.
/// Returned by what stands in for a missing associated function.
pub struct Mark;
pub trait NoNew {
    fn new() -> Mark {
        Mark
    }
}
impl<T> NoNew for T {}
pub fn is_mark<R: 'static>(_: fn() -> R) -> bool {
    std::any::TypeId::of::<R>() == std::any::TypeId::of::<Mark>()
}
pub struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
macro_rules! probe {
    ($tr:ident, $c:ident, $($b:tt)+) => {
        pub trait $tr { const $c: bool = false; }
        impl<T: ?Sized> $tr for Probe<T> {}
        impl<T: $($b)+> Probe<T> { pub const $c: bool = true; }
    };
}
probe!(PDefault, DEFAULT, Default);
probe!(PSend, SEND, Send + ?Sized);
probe!(PSync, SYNC, Sync + ?Sized);
probe!(PClone, CLONE, Clone);
probe!(PSer, SER, serde::Serialize + ?Sized);
probe!(PDe, DE, serde::de::DeserializeOwned);

/// The formatted container contains the formatted value.
pub fn shows(c: &dyn std::fmt::Debug, x: &dyn std::fmt::Debug) -> spec::Obs {
    let (c, x) = (format!("{:?}", c), format!("{:?}", x));
    if c.contains(&x) {
        spec::Obs::B(true)
    }
    else {
        spec::Obs::S(format!("{:?} isn't in {:?}", x, c))
    }
}
