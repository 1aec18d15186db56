//! Declared meaning of a generated struct: what the reference model works from. It is written by the generator from the
//! documentation's point of view, not from what the macro does.
use crate::env::Outcome;
use serde_json::Value;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fl {
    /// Lazy field
    Lazy,
    /// Optional field
    Opt,
    /// Ordinary field
    Ord,
}

/// Kinds of operations.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum K {
    Get,
    GetMut,
    GetMutPeek,
    Set,
    Clear,
    Has,
    Read,
    Write,
    WStore,
    WClear,
    WStoreClear,
    WPeek,
    PlanErr,
    PlanPanic,
    // Whole struct
    CloneSwap,
    EqClone,
    EqMutated,
    EqCleared,
    // The container of the field itself
    Dbg,
    Unwrap,
    Conv,
    IsSet,
    LazyInit,
    DebugFmt,
    Myself,
    MyselfDown,
    Counts,
    RcClone,
    RcDrop,
    SerdeRt,
    // Overlapping borrows: hold result of the first, do the second
    OvGetGet,
    OvGetMut,
    OvGetSet,
    OvGetClear,
    OvMutGet,
    OvMutMut,
    OvMutSet,
    OvMutHas,
    OvOther,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum SDef {
    None,
    Ty,
    Val(u64),
}

#[derive(Debug)]
pub struct SerSpec {
    /// Name in the map
    pub name: &'static str,
    pub ser: bool,
    pub de: bool,
    pub default: SDef,
    /// JSON of the value with a token
    pub jv: fn(u64) -> Value,
    /// The field type is an Option by itself: null and missing are accepted by serde
    pub opt_ty: bool,
}

#[derive(Debug)]
pub struct FieldSpec {
    pub name: &'static str,
    pub fl: Fl,
    pub fallible: bool,
    pub def: Option<u64>,
    /// Default expression counts its evaluations
    pub def_counted: bool,
    pub deps: &'static [usize],
    pub ops: &'static [K],
    /// Can be given to the struct builder
    pub inb: bool,
    pub req: bool,
    /// Number of tracked values inside of one field value
    pub track: i64,
    /// Value with token 0 holds no tracked value (Option)
    pub zero_untracked: bool,
    pub ser: Option<SerSpec>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum EK {
    Fx,
    CustomFrom,
    Variant,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pb {
    None,
    Infallible,
    Fallible,
}

#[derive(Debug)]
pub struct Spec {
    pub id: usize,
    /// Variants of one declaration which must behave the same; 0: has none
    pub group: usize,
    pub name: &'static str,
    pub src: &'static str,
    pub fields: &'static [FieldSpec],
    pub ctors: &'static [CK],
    pub ops: &'static [K],
    pub ek: EK,
    pub pb: Pb,
    /// Ordinary fields the post-build hook looks at
    pub pb_sees: &'static [usize],
    /// The whole input map may be incomplete because the struct has a container-level serialization default; these are the
    /// values it gives: per field, None if unset.
    pub de_default: Option<&'static [Option<u64>]>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CK {
    New,
    Default,
    Builder,
    De,
}

#[derive(Debug, Clone, PartialEq)]
pub enum BStep {
    Set(usize, u64),
    Build,
    PostFail(u64),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pres {
    Missing,
    Null,
    Val(u64),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ctor {
    New,
    Default,
    Builder(Vec<BStep>),
    De(Vec<Pres>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Op {
    pub f: usize,
    pub k: K,
    pub v: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Obs {
    U,
    V(u64),
    O(Option<u64>),
    B(bool),
    E(u64),
    P,
    S(String),
    J(Value),
    List(Vec<Obs>),
}

impl Outcome {
    pub fn code(v: u64) -> Self {
        Outcome::Err(v)
    }
}

/// A live object under test.
pub trait Subject {
    fn apply(&mut self, op: &Op) -> Obs;
    /// Called last: everything the struct must let go of.
    fn finish(self: Box<Self>) -> Obs {
        Obs::U
    }
}

pub struct Entry {
    pub spec: Spec,
    pub make: fn(&Spec, &Ctor, &mut Vec<Obs>) -> Option<Box<dyn Subject>>,
    /// Statically decidable facts about the type which do not hold
    pub facts: fn() -> Vec<String>,
}
