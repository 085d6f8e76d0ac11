//! syn for macros that run outside the compiler: its token stream is
//! proc-macro2's.
pub use syn_real::*;
pub fn parse<T: syn_real::parse::Parse>(t: proc_macro2::TokenStream) -> Result<T> {
    parse2(t)
}
