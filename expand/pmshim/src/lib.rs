//! Stands for the compiler's proc_macro in an in-process build.
pub use proc_macro2::*;
