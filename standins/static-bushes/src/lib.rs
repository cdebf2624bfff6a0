//! Stand-in for the `static-bushes` git dependency (not fetchable here).
//! Contract: a set of points with the index each was added under; `exact_as_vec` gives the
//! indices of the points equal to the query, `search_range` of those inside the closed box.
#[derive(Clone, Debug)]
pub struct KDBush<T>(Vec<[T; 2]>);
pub struct KDBushBuilder<T>(Vec<[T; 2]>);

impl<T: Copy + PartialOrd> KDBushBuilder<T> {
    pub fn new() -> Self {
        KDBushBuilder(Vec::new())
    }
    pub fn add(&mut self, p: &[T; 2]) {
        self.0.push(*p)
    }
    pub fn finish(self) -> KDBush<T> {
        KDBush(self.0)
    }
}
impl<T: Copy + PartialOrd> KDBush<T> {
    pub fn exact_as_vec(&self, x: T, y: T) -> Vec<usize> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < self.0.len() {
            if self.0[i][0] == x && self.0[i][1] == y {
                out.push(i);
            }
            i += 1;
        }
        out
    }
    pub fn search_range(&self, x0: T, y0: T, x1: T, y1: T) -> RangeIter<'_, T> {
        RangeIter { pts: &self.0, q: [x0, y0, x1, y1], at: 0 }
    }
}
pub struct RangeIter<'a, T> {
    pts: &'a Vec<[T; 2]>,
    q: [T; 4],
    at: usize,
}
impl<'a, T: Copy + PartialOrd> Iterator for RangeIter<'a, T> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.at < self.pts.len() {
            let i = self.at;
            self.at += 1;
            let [x, y] = self.pts[i];
            if x >= self.q[0] && x <= self.q[2] && y >= self.q[1] && y <= self.q[3] {
                return Some(i);
            }
        }
        None
    }
}
