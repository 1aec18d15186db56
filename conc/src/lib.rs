//! Concurrent histories of generated structs: threads under a controlled scheduler, or tasks under a controlled executor.
//! Every call is recorded with the moments it began and ended; each field's history must be explainable by calls made one at a time.
pub mod lin;
pub mod run;
pub mod world;
pub use run::{main_with, Entry};
pub use rt::env::{BErr, FErr, LErr};
pub use rt::spec::{Fl, Obs, K};
pub use rt::{Arr, Cp, In, Mk, Nc, Val};
pub use world::{ahold, anested, building, building_async, expect, hold, nested, same};

/// An operation as subjects see it
#[derive(Debug, Clone, Copy)]
pub struct COp {
    pub k: K,
    pub f: usize,
    pub v: u64,
}

#[derive(Debug)]
pub struct CField {
    pub name:     &'static str,
    pub fl:       Fl,
    pub fallible: bool,
    /// What it is set to by the constructor
    pub init:     Option<u64>,
    pub deps:     &'static [usize],
    pub ops:      &'static [K],
}

#[derive(Debug)]
pub struct CSpec {
    pub id:     usize,
    pub src:    &'static str,
    pub asy:    bool,
    pub fields: &'static [CField],
    /// Operations over the whole struct
    pub ops:    &'static [K],
}

pub trait Subj: Send + Sync {
    fn call(&self, op: &COp) -> Obs;
    fn acall<'a>(&'a self, _op: &'a COp) -> std::pin::Pin<Box<dyn std::future::Future<Output = Obs> + 'a>> {
        unreachable!()
    }
    /// Compare with another object of the same type
    fn eq_other(&self, other: &dyn Subj) -> bool {
        let _ = other;
        unreachable!()
    }
    fn any(&self) -> &dyn std::any::Any;
    fn addr(&self) -> usize;
}
