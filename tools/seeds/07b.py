ID='point-below-the-box'; PROP='C07'
NEEDS='a box that ends before the list does and a proximity point whose z-order value lies below all of the box'
BREAKS="the part of the list before the point is cut one short of the box's last coordinate, which is lost"
EDITS=[('spatial.rs', 'let head = (range.0..prox_mid).rev().filter_map(filtered_get);', 'let head = (range.0..prox_mid.min(range.1)).rev().filter_map(filtered_get);')]
DEMO='''
pub fn demo() {
    // in descending z-order: (3, 3) (2, 2) | (1, 1) (0, 0)
    let (data, o) = coords(&[(3, 3), (2, 2), (1, 1), (0, 0)]);
    let r = Reader::new(&data[..]);
    let mut got: Vec<u32> = bbox_proximity_filter(r.read_uniform_vec(o.clone()), [1, 1, 3, 3], [0, 0]).unwrap().map(|c| c.coord).collect();
    got.sort();
    let want: Vec<u32> = [(1, 1), (2, 2), (3, 3)].iter().map(|(x, y)| morton::interleave_morton(*x, *y)).collect();
    assert_eq!(got, want);
    let (data, o) = coords(&[(3, 3), (3, 2)]);
    let r = Reader::new(&data[..]);
    assert_eq!(bbox_proximity_filter(r.read_uniform_vec(o), [2, 2, 3, 3], [0, 0]).unwrap().count(), 2);
}
'''
