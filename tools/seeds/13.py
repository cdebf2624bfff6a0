ID="queue-ties-and-max"; PROP="C13"
NEEDS="a push onto a full queue of an element better than the worst but not better than the best held"
BREAKS="a full queue only takes elements that beat its best"
EDITS=[("common.rs","                if element > *min {","                if element > *min && self.heap.peek_max().map_or(true, |max| element >= *max) {")]
DEMO='''
pub fn demo() {
    let mut q = ConstrainedPriorityQueue::new(2);
    for i in &[1, 5, 3] { q.push(*i); }
    assert_eq!(q.into_vec_desc(), vec![5, 3]);
}
'''
