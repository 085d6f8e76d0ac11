//! Stand-in for rand::random, which generated websocket operations call: the
//! harness decides (and so knows) the bytes.
pub static mut SOURCE: fn() -> [u8; 16] = || [7; 16];
pub trait Random {
    fn get() -> Self;
}
impl Random for [u8; 16] {
    fn get() -> Self {
        unsafe { SOURCE() }
    }
}
pub fn random<T: Random>() -> T {
    T::get()
}
