pub use vcoll::HashMap as FxHashMap;
pub use vcoll::HashSet as FxHashSet;
