ID="box-starts-at-first"; PROP="C06"
NEEDS="a box whose least z-order value equals the first (largest) coordinate of the list, e.g. a one-tile box on it"
BREAKS="the list is taken to lie before the box when its first coordinate is the box's smallest"
EDITS=[("spatial.rs","    if min > range_start {","    if min >= range_start {")]
DEMO='''
pub fn demo() {
    let (data, o) = coords(&[(1, 1), (3, 2), (6, 5)]);
    let r = Reader::new(&data[..]);
    assert_eq!(pts(bbox_filter(r.read_uniform_vec(o), [6, 5, 6, 5])), vec![(6, 5)]);
    assert_eq!(pts(bbox_filter(r.read_uniform_vec(o), [6, 5, 9, 9])), vec![(6, 5)]);
}
'''
