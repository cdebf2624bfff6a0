// Executable contracts: C13 bounded priority queue
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn top_n(cap: usize, items: &[(u32, u32)]) {
    // ordered by the first field only: equal keys are told apart by the second
    #[derive(Clone, Copy, Debug)]
    struct It(u32, u32);
    impl PartialEq for It {
        fn eq(&self, o: &It) -> bool {
            self.0 == o.0
        }
    }
    impl Eq for It {}
    impl PartialOrd for It {
        fn partial_cmp(&self, o: &It) -> Option<std::cmp::Ordering> {
            Some(self.0.cmp(&o.0))
        }
    }
    impl Ord for It {
        fn cmp(&self, o: &It) -> std::cmp::Ordering {
            self.0.cmp(&o.0)
        }
    }
    let mut q: ConstrainedPriorityQueue<It> = ConstrainedPriorityQueue::new(cap);
    let mut all: Vec<u32> = vec![];
    for (k, id) in items {
        let before: Vec<u32> = all.clone();
        all.push(*k);
        let kept = q.push(It(*k, *id));
        assert!(q.len() == all.len().min(cap), "holds as many as fit");
        // accepted exactly when there is room or it beats the worst held
        let mut b = before;
        b.sort();
        b.reverse();
        b.truncate(cap);
        let want = b.len() < cap || b.last().map_or(false, |w| k > w);
        assert!(kept == want, "says whether it kept the element");
        let mut a = all.clone();
        a.sort();
        a.reverse();
        a.truncate(cap);
        assert!(q.peek_max().map(|x| x.0) == a.first().cloned(), "best held");
        assert!(q.peek_min().map(|x| x.0) == a.last().cloned(), "worst held");
    }
    let mut best = all.clone();
    best.sort();
    best.reverse();
    best.truncate(cap);
    let mode = nd::below(3);
    let out: Vec<It> = match mode {
        0 => q.into_vec_desc(),
        1 => {
            let mut v = vec![];
            while let Some(x) = q.pop_max() {
                v.push(x);
            }
            v
        }
        _ => {
            let mut v: Vec<It> = q.into_iter().collect();
            v.sort();
            v.reverse();
            v
        }
    };
    assert!(out.iter().map(|i| i.0).collect::<Vec<_>>() == best, "keeps the best, in descending order");
    let mut ids: Vec<(u32, u32)> = out.iter().map(|i| (i.0, i.1)).collect();
    ids.sort();
    ids.dedup();
    assert!(ids.len() == out.len() && ids.iter().all(|i| items.contains(i)), "keeps elements given to it, once");
    nd::reached("top n");
}
pub fn c13_queue() {
    let cap = nd::below(6) as usize;
    let n = nd::below(9);
    let items: Vec<(u32, u32)> = (0..n).map(|i| (nd::below(5), i)).collect();
    top_n(cap, &items)
}
pub fn c13_long() {
    let cap = nd::pick(&[1usize, 7, 40, 64, 100]);
    let n = nd::below(300);
    let items: Vec<(u32, u32)> = (0..n).map(|i| (nd::u32(), i)).collect();
    top_n(cap, &items)
}
