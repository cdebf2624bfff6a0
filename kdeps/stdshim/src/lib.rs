//! Kani build only: `std` with its hash and ordered collections replaced by the ones of `vcoll`.
pub use ::std::*;
pub mod collections {
    pub use ::std::collections::{BinaryHeap, LinkedList, VecDeque};
    pub use ::vcoll::*;
}
