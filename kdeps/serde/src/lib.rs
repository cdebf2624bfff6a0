//! Kani build only: serialisation is not part of the verified behaviour.
pub use noop_derive::{Deserialize, Serialize};
pub trait Serialize {}
pub trait Deserialize<'de> {}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    fn collect_seq<I: IntoIterator>(self, _: I) -> Result<Self::Ok, Self::Error> {
        unimplemented!()
    }
}
