ID="runs-in-batches"; PROP="C14"
NEEDS="a run of more than 4096 elements of one key"
BREAKS="a long run is handed out in batches, so neighbouring groups have the same key"
EDITS=[("common.rs","                        if *o != k {","                        if *o != k || running_group.len() >= 4096 {")]
DEMO='''
pub fn demo() {
    let v: Vec<u32> = (0..9000).map(|i| i / 5000).collect();
    let g: Vec<(u32, Vec<u32>)> = somewhat_eager_groupby(v.into_iter(), |x| *x).collect();
    assert!(g.len() == 2 && g[0].1.len() == 5000 && g[1].1.len() == 4000, "{}", g.len());
}
'''
