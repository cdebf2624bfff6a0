ID="language-above-64"; PROP="C03"
NEEDS="a language with an index of 64 or more shared by request and key, and none below"
BREAKS="only the lower half of the language set is compared"
EDITS=[("common.rs","Ok(self.lang_set & key_lang_set != 0)","Ok((self.lang_set as u64) & (key_lang_set as u64) != 0)")]
DEMO='''
pub fn demo() {
    for bit in 0..128 {
        let s = store(&format!("s{}", bit), 6, 0, vec![], vec![(key(1, 1 << bit), vec![e(1., 1, 1, 1, 1, 0)])]);
        let r: Vec<_> = s.streaming_get_matching(&exact(1, 1 << bit), &opts(6), 10).unwrap().collect();
        assert!(r[0].matches_language && r[0].grid_entry.relev == 1., "language {}", bit);
    }
}
'''
