//! Stand-in: no log.
pub fn init() {}
pub fn try_init() -> Result<(), std::convert::Infallible> {
    Ok(())
}
