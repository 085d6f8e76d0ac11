//! The bound the generated command lines put on every type they print.
pub trait JsonSchema {}
impl<T: ?Sized> JsonSchema for T {}
