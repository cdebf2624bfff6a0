// Helpers shared by the executable contracts (spec side: plain, obvious, slow).
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::store::GridStore;
use crate::nd;
use std::cell::Cell;

thread_local!(static NEXT: Cell<u64> = Cell::new(0));

/// A database path of this case's own; the database disappears with the value.
pub struct Path(pub String);
impl Path {
    pub fn new() -> Path {
        let n = NEXT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let t = format!("{:?}", std::thread::current().id());
        Path(format!("/nonexistent/vh-{}-{}", t.replace("ThreadId", ""), n))
    }
}
impl Drop for Path {
    fn drop(&mut self) {
        let _ = rocksdb::DB::destroy(&rocksdb::Options::default(), &self.0);
    }
}

pub const RELEVS: [f64; 4] = [0.4, 0.6, 0.8, 1.0];

/// position of bit i of x at 2i and of bit i of y at 2i+1
pub fn zcode(x: u16, y: u16) -> u32 {
    let mut z = 0u32;
    for i in 0..16 {
        z |= (((x >> i) & 1) as u32) << (2 * i);
        z |= (((y >> i) & 1) as u32) << (2 * i + 1);
    }
    z
}
pub fn unz(z: u32) -> (u16, u16) {
    let (mut x, mut y) = (0u16, 0u16);
    for i in 0..16 {
        x |= (((z >> (2 * i)) & 1) as u16) << i;
        y |= (((z >> (2 * i + 1)) & 1) as u16) << i;
    }
    (x, y)
}

/// an entry from a small, collision-rich domain
pub fn small_entry(nx: u32, nid: u32) -> GridEntry {
    GridEntry {
        relev: nd::pick(&RELEVS),
        score: nd::below(3) as u8,
        x: nd::below(nx) as u16,
        y: nd::below(nx) as u16,
        id: nd::below(nid),
        source_phrase_hash: nd::below(2) as u8,
    }
}
/// any entry the storage format can represent
pub fn wide_entry() -> GridEntry {
    GridEntry {
        relev: nd::pick(&RELEVS),
        score: nd::below(16) as u8,
        x: nd::u16(),
        y: nd::u16(),
        id: nd::u32() & 0xff_ffff,
        source_phrase_hash: nd::u8(),
    }
}
pub type EKey = (u64, u8, u16, u16, u32, u8);
pub fn ekey(e: &GridEntry) -> EKey {
    (e.relev.to_bits(), e.score, e.x, e.y, e.id, e.source_phrase_hash)
}
pub fn sorted_distinct(es: &[GridEntry]) -> Vec<EKey> {
    let mut v: Vec<EKey> = es.iter().map(ekey).collect();
    v.sort();
    v.dedup();
    v
}
pub fn sorted(es: &[GridEntry]) -> Vec<EKey> {
    let mut v: Vec<EKey> = es.iter().map(ekey).collect();
    v.sort();
    v
}

pub struct Spec {
    pub zoom: u16,
    pub type_id: u16,
    pub radius: f64,
    pub bboxes: Vec<[u16; 4]>,
    pub max_score: f64,
    pub data: Vec<(GridKey, Vec<GridEntry>)>,
    pub bins: Vec<u32>,
}
impl Spec {
    pub fn new(zoom: u16, data: Vec<(GridKey, Vec<GridEntry>)>) -> Spec {
        let m = ((1u32 << zoom) - 1) as u16;
        Spec { zoom, type_id: 0, radius: 0.0, bboxes: vec![[0, 0, m, m]], max_score: 7.0, data, bins: vec![] }
    }
    pub fn build(&self, path: &Path) -> GridStore {
        let mut b = GridStoreBuilder::new(&path.0).unwrap();
        for (k, v) in &self.data {
            b.append(k, v.clone()).unwrap();
        }
        if !self.bins.is_empty() {
            b.load_bin_boundaries(self.bins.clone()).unwrap();
        }
        b.finish().unwrap();
        GridStore::new_with_options(
            &path.0,
            self.zoom,
            self.type_id,
            self.radius,
            self.bboxes.clone(),
            self.max_score,
        )
        .unwrap()
    }
}

pub fn mkey(e: &MatchEntry) -> (EKey, bool, u64, u64) {
    (ekey(&e.grid_entry), e.matches_language, e.distance.to_bits(), e.scoredist.to_bits())
}
pub fn inside(b: &[u16; 4], x: u16, y: u16) -> bool {
    b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3]
}

/// any set of languages, biased to the shapes that are stored differently
pub fn lang() -> u128 {
    match nd::below(6) {
        0 => 0,
        1 => std::u128::MAX,
        2 => 1 << nd::below(128),
        3 => std::u128::MAX >> nd::below(128),
        4 => (nd::u8() as u128) << (8 * nd::below(16)),
        _ => nd::u128(),
    }
}
