ID="zoom-in-middle"; PROP="C04"
NEEDS="a proximity point moved in by exactly one zoom level"
BREAKS="the middle is computed without the -1, so a point moved in by one level leaves the four middle tiles' top left one; with the largest tile it still fits but lies one off"
EDITS=[("common.rs","let mid_coord_adjuster = scale_multiplier / 2 - 1;","let mid_coord_adjuster = (scale_multiplier - 1) / 2 + (scale_multiplier / 256);")]
DEMO='''
pub fn demo() {
    for d in 1..=16u16 {
        let o = MatchOpts { zoom: 16 - d, bbox: None, proximity: Some([0, 0]) }.adjust_to_zoom(16);
        let m = ((1u32 << d) / 2 - 1) as u16;
        assert_eq!(o.proximity, Some([m, m]), "by {}", d);
    }
}
'''
