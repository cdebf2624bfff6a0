ID="nearby-rounds"; PROP="C05"
NEEDS="a zoom at which 25 miles span a number of tiles whose fraction is below one half (e.g. 12, 16)"
BREAKS="the padding is rounded instead of rounded up, so the box is a tile too small"
EDITS=[("common.rs","(NEARBY_RADIUS / miles_per_tile).ceil() as u16","(NEARBY_RADIUS / miles_per_tile).round() as u16")]
DEMO='''
pub fn demo() {
    for zoom in 0..=16u16 {
        let m = (1u32 << zoom) as f64;
        let pad = (25.0 / (24901.0 / m)).ceil();
        let p = ((1u32 << zoom) / 2) as u16;
        let b = MatchOpts { zoom, bbox: None, proximity: Some([p, p]) }.with_nearby_only().bbox.unwrap();
        assert_eq!(b[0] as f64, (p as f64 - pad).max(0.), "zoom {}", zoom);
    }
}
'''
