ID="id-list-at-256"; PROP="C01"
NEEDS="a coordinate whose id list lies at byte 256 exactly of its record"
BREAKS="the offset width boundary is off by one, so the reader is sent to byte 0"
EDITS=[("gridstore_format.rs","            0..=255 => 4 + 1,\n            256..=65535 => 4 + 2,","            0..=256 => 4 + 1,\n            257..=65535 => 4 + 2,")]
DEMO='''
pub fn demo() {
    for n in 0..300usize {
        let mut w = Writer::new();
        let filler: Vec<u32> = vec![7; n / 4];
        for _ in 0..n % 4 { w.write_fixed_vec::<u32>(&[]); }
        w.write_fixed_vec(&filler);
        let ids = w.write_fixed_vec(&[11u32, 12]);
        let cs = w.write_uniform_vec(&[Coord { coord: 5, ids }]);
        let data = w.finish();
        let r = Reader::new(&data[..]);
        let got: Vec<Vec<u32>> = r.read_uniform_vec(cs).iter().map(|c| r.read_fixed_vec(c.ids).iter().collect()).collect();
        assert_eq!(got, vec![vec![11, 12]], "{} bytes before", n);
    }
}
'''
