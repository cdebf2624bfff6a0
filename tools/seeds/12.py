ID="tiles-per-mile-digit"; PROP="C12"
NEEDS="a proximity query at zoom 9"
BREAKS="two digits of the tiles-per-mile table are swapped at zoom 9"
EDITS=[("spatial.rs","0.10534979423868314,","0.10543979423868314,")]
DEMO='''
pub fn demo() {
    for z in 1..=17u16 {
        let q = proximity_radius(z, 400.) / proximity_radius(z - 1, 400.);
        assert!((q - 1.5).abs() < 1e-9, "zoom {}: {}", z, q);
    }
}
'''
