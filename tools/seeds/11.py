ID="limit-stops-early"; PROP="C11"
NEEDS="more matching keys than the limit, one of them worse than all held so far before a better one in key order"
BREAKS="scanning stops at the first key that is not good enough although later keys may be better"
EDITS=[("store.rs","""                    if worst_entry >= &queue_element {
                        continue;""","""                    if worst_entry >= &queue_element {
                        break;""")]
DEMO='''
pub fn demo() {
    let data = vec![(key(0, 1), vec![e(0.8, 1, 1, 1, 1, 0)]), (key(1, 1), vec![e(0.6, 1, 2, 2, 2, 0)]), (key(2, 1), vec![e(1., 1, 2, 2, 3, 0)])];
    let s = store("s", 6, 0, vec![], data);
    let r: Vec<_> = s.streaming_get_matching(&range(0, 3, 1), &opts(6), 1).unwrap().take(1).map(|m| m.grid_entry.id).collect();
    assert_eq!(r, vec![3]);
}
'''
