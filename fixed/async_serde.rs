//! Serialization of async structs whose lazy fields aren't set yet. Async lazy structs can't derive Clone, which
//! serialization needs, so their Clone is written by hand; the documents are put in the file given.
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake};

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
fn wait<F: Future>(f: F) -> F::Output {
    let w = Arc::new(Nop).into();
    let mut cx = Context::from_waker(&w);
    match pin!(f).poll(&mut cx) {
        Poll::Ready(v) => v,
        Poll::Pending => panic!("pending"),
    }
}

#[fxstruct(r#async, serde, no_new, default)]
struct Lazy {
    #[fieldx(lazy, set, get(clone), predicate)]
    v: u32,
    #[fieldx(get(copy), set)]
    w: u32,
}
impl Lazy {
    async fn build_v(&self) -> u32 {
        77
    }
}
impl Clone for Lazy {
    fn clone(&self) -> Self {
        let mut o = Self::default();
        if self.has_v() {
            wait(o.set_v(wait(self.v())));
        }
        o.set_w(self.w());
        o
    }
}

#[fxstruct(r#async, serde, no_new, default)]
#[derive(Clone)]
struct Mixed {
    #[fieldx(lazy, sync, get(clone))]
    v: u32,
    #[fieldx(get(copy))]
    w: u32,
}
impl Mixed {
    fn build_v(&self) -> u32 {
        78
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    let path = std::env::args().nth(1).unwrap();
    let mut case = |name: &str, f: fn() -> serde_json::Value| {
        if let Ok(v) = std::panic::catch_unwind(f) {
            out.insert(name.to_string(), v);
        }
    };
    case("async-lazy-unset", || serde_json::to_value(&Lazy::default()).unwrap());
    case("async-lazy-set", || {
        let mut o = Lazy::default();
        wait(o.set_v(5));
        o.set_w(6);
        serde_json::to_value(&o).unwrap()
    });
    case("async-lazy-read", || {
        let o: Lazy = serde_json::from_str(r#"{"v":7,"w":8}"#).unwrap();
        serde_json::to_value(&o).unwrap()
    });
    case("async-lazy-built", || {
        let o = Lazy::default();
        let _ = wait(o.v());
        serde_json::to_value(&o).unwrap()
    });
    case("sync-lazy-unset", || serde_json::to_value(&Mixed::default()).unwrap());
    std::fs::write(path, serde_json::to_string(&out).unwrap()).unwrap();
}
