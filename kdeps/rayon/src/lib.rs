//! Kani build only: a parallel iterator is the sequential one (the verifier has no threads).
pub mod prelude {
    pub trait IntoParallelIterator {
        type Item;
        type Iter;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = std::vec::IntoIter<T>;
        fn into_par_iter(self) -> Self::Iter {
            self.into_iter()
        }
    }
}
