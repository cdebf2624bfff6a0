pub use vcoll::IndexMap;
pub use vcoll::map;
