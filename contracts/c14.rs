// Executable contracts: C14 grouping of runs
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn groups(items: &[(u8, u32)]) {
    let got: Vec<(u8, Vec<(u8, u32)>)> =
        somewhat_eager_groupby(items.to_vec().into_iter(), |x: &(u8, u32)| x.0).collect();
    let flat: Vec<(u8, u32)> = got.iter().flat_map(|g| g.1.iter().cloned()).collect();
    assert!(flat == items.to_vec(), "nothing lost, nothing reordered");
    assert!(got.iter().all(|g| !g.1.is_empty() && g.1.iter().all(|x| x.0 == g.0)), "one key per group");
    assert!(got.windows(2).all(|w| w[0].0 != w[1].0), "groups are maximal");
    // and it stays finished
    let mut it = somewhat_eager_groupby(items.to_vec().into_iter(), |x: &(u8, u32)| x.0);
    for _ in 0..got.len() {
        assert!(it.next().is_some());
    }
    assert!(it.next().is_none() && it.next().is_none(), "finished means finished");
    nd::reached("groups");
}
pub fn c14_groups() {
    let n = nd::below(8);
    let v: Vec<(u8, u32)> = (0..n).map(|i| (nd::below(3) as u8, i)).collect();
    groups(&v)
}
/// long runs (also around powers of two)
pub fn c14_long() {
    let mut v: Vec<(u8, u32)> = vec![];
    for _ in 0..1 + nd::below(3) {
        let n = nd::pick(&[1u32, 7, 16, 32, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384]) + nd::below(3);
        let k = nd::below(2) as u8;
        let from = v.len() as u32;
        v.extend((0..n).map(|i| (k, from + i)));
    }
    groups(&v);
    nd::reached("long");
}
