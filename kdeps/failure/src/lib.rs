//! Kani build only: an error value carries no information beyond being an error.
pub use noop_derive::Fail;
pub trait Fail {}
impl<E: std::error::Error> Fail for E {}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl<F: Fail> From<F> for Error {
    fn from(_: F) -> Error {
        Error
    }
}
