ID='far-proximity-wraps'; PROP='C07'
NEEDS='a proximity point and a coordinate more than 3.04e9 apart in z-order (opposite corners of zoom 16), and another at a lesser distance on the other side'
BREAKS='squared z-order distances wrap at 64 bits, so the far corner of the world counts as near'
EDITS=[('spatial.rs', '    let getter = move |i| coords.get(i as usize);\n    let head = (0..prox_mid).rev().map(getter);\n    let tail = (prox_mid..len).map(getter);\n    let coord_sets = head.into_iter().merge_by(tail.into_iter(), move |a, b| {\n        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;\n        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;\n        morton_distance_1.abs() < morton_distance_2.abs()', '    let getter = move |i| coords.get(i as usize);\n    let head = (0..prox_mid).rev().map(getter);\n    let tail = (prox_mid..len).map(getter);\n    let coord_sets = head.into_iter().merge_by(tail.into_iter(), move |a, b| {\n        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;\n        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;\n        morton_distance_1.wrapping_mul(morton_distance_1)\n            < morton_distance_2.wrapping_mul(morton_distance_2)')]
DEMO='''
pub fn demo() {
    let (data, o) = coords(&[(65535, 65535), (900, 10), (0, 0)]);
    let r = Reader::new(&data[..]);
    let p = morton::interleave_morton(1000, 10) as i64;
    let d: Vec<i64> = proximity(r.read_uniform_vec(o), [1000, 10]).unwrap().map(|c| (c.coord as i64 - p).abs()).collect();
    assert!(d.len() == 3 && d.windows(2).all(|w| w[0] <= w[1]), "{:?}", d);
}
'''
