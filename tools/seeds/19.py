ID="child-box-not-adjusted"; PROP="C19"
NEEDS="a child index of a deeper zoom whose covered area, in its own tile numbers, misses the parent's tiles"
BREAKS="the child's bounding boxes are compared without converting their zoom"
EDITS=[("coalesce.rs","let child_bboxes = if child_zoom == current_zoom {","let child_bboxes = if child_zoom >= current_zoom && child_store.bboxes.len() == 1 {")]
DEMO='''
pub fn demo() {
    let a = store("a", 3, 0, vec![], vec![(key(1, 1), vec![e(1., 1, 1, 1, 1, 0)])]);
    let path = std::env::temp_dir().join("b");
    let mut bb = GridStoreBuilder::new(&path).unwrap();
    bb.append(&key(1, 1), vec![e(1., 1, 8, 8, 2, 0)]).unwrap();
    bb.finish().unwrap();
    let b = GridStore::new_with_options(&path, 6, 1, 400., vec![[8, 8, 15, 15]], 7.).unwrap();
    let v = vec![sub(&a, 0, 2, 0.5, vec![(exact(1, 1), 0)]), sub(&b, 1, 1, 0.5, vec![(exact(1, 1), 1)])];
    let r = stack_and_coalesce(&v, &opts(6)).unwrap();
    assert!(r.iter().any(|c| c.entries.len() == 2), "{:?}", r);
}
'''
