//! Outside the compiler a macro's token stream is proc-macro2's.
pub use proc_macro2::*;
