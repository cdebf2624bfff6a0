// Executable contracts: C11 matching entries
use super::expect::*;
use super::util::*;
use crate::gridstore::builder::*;
use crate::gridstore::common::*;
use crate::gridstore::gridstore_format as gf;
use crate::gridstore::spatial;
use crate::gridstore::store::GridStore;
use crate::nd;


pub fn match_data(zoom: u16, n_phr: u32) -> Vec<(GridKey, Vec<GridEntry>)> {
    let m = (1u32 << zoom).min(64);
    let mut data = vec![];
    for p in 0..n_phr {
        for l in &[1u128, 6, std::u128::MAX] {
            if nd::below(3) == 0 {
                let es = (0..nd::below(5))
                    .map(|_| GridEntry {
                        relev: nd::pick(&RELEVS),
                        score: nd::pick(&[0u8, 1, 3, 7, 9, 15]),
                        x: nd::below(m) as u16,
                        y: nd::below(m) as u16,
                        id: nd::below(5),
                        source_phrase_hash: nd::below(2) as u8,
                    })
                    .collect();
                data.push((GridKey { phrase_id: p, lang_set: *l }, es));
            }
        }
    }
    data
}
pub fn opts_at(zoom: u16) -> MatchOpts {
    let m = (1u32 << zoom).min(64) - 1;
    let c = || (nd::below(m + 1)) as u16;
    let (x0, y0, x1, y1) = (c(), c(), c(), c());
    MatchOpts {
        zoom,
        bbox: if nd::flag() { Some([x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1)]) } else { None },
        proximity: if nd::flag() { Some([c(), c()]) } else { None },
    }
}
pub fn some_key(n_phr: u32) -> MatchKey {
    let a = nd::below(n_phr);
    MatchKey {
        match_phrase: if nd::flag() {
            MatchPhrase::Exact(a)
        } else {
            MatchPhrase::Range { start: a, end: a + nd::below(n_phr - a + 2) }
        },
        lang_set: nd::pick(&[0u128, 1, 2, 4, 7, std::u128::MAX]),
    }
}
pub fn c11_matching() {
    let zoom = nd::pick(&[6u16, 3, 14]);
    let n_phr = 4;
    let data = match_data(zoom, n_phr);
    let radius = nd::pick(&[0.0f64, 40.0, 400.0, 1000.0]);
    let s = Spec { radius, ..Spec::new(zoom, data) };
    let path = Path::new();
    let store = s.build(&path);
    let key = some_key(n_phr);
    let opts = opts_at(zoom);
    let got: Vec<MatchEntry> = store.streaming_get_matching(&key, &opts, 1000).unwrap().collect();
    let want = expected_matches(&s.data, &key, &opts, radius);
    let mut a: Vec<_> = got.iter().map(mkey).collect();
    let mut b: Vec<_> = want.iter().map(mkey).collect();
    a.sort();
    b.sort();
    assert!(a == b, "exactly the matching entries, once each, with penalty and distance score");
    if opts.proximity.is_none() {
        assert!(
            got.windows(2).all(|w| (w[0].grid_entry.relev, w[0].scoredist)
                >= (w[1].grid_entry.relev, w[1].scoredist)),
            "best relevance, then score, first"
        );
        nd::reached("ordered");
    }
    if !got.is_empty() {
        nd::reached("matched");
    }
}
/// With more matching keys than `max_values`, the first `max_values` results are still the best.
pub fn c11_limit() {
    let n_phr = 8;
    let mut data = match_data(6, n_phr);
    data.retain(|(_, v)| !v.is_empty());
    let s = Spec::new(6, data);
    let path = Path::new();
    let store = s.build(&path);
    let key = MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: n_phr }, lang_set: nd::pick(&[1u128, 2, 0]) };
    let opts = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let max = 1 + nd::below(6) as usize;
    let got: Vec<MatchEntry> = store.streaming_get_matching(&key, &opts, max).unwrap().collect();
    let want = expected_matches(&s.data, &key, &opts, 0.0);
    let mut best: Vec<(u64, u64)> =
        want.iter().map(|e| (e.grid_entry.relev.to_bits(), e.scoredist.to_bits())).collect();
    best.sort();
    best.reverse();
    let n = max.min(best.len());
    assert!(got.len() >= n, "at least that many when there are");
    let first: Vec<(u64, u64)> =
        got[..n].iter().map(|e| (e.grid_entry.relev.to_bits(), e.scoredist.to_bits())).collect();
    assert!(first == best[..n].to_vec(), "the first results are the best ones");
    let mut pool: Vec<_> = want.iter().map(mkey).collect();
    for e in &got {
        let k = mkey(e);
        let i = pool.iter().position(|p| *p == k);
        assert!(i.is_some(), "only matching entries, each at most once");
        pool.swap_remove(i.unwrap());
    }
    nd::reached("limited");
}
/// phrase ids at the ends of their range
pub fn c11_edge() {
    let p = nd::pick(&[0u32, 1, 255, 256, 65535, 65536, std::u32::MAX - 1, std::u32::MAX]);
    let mut data = vec![];
    for d in 0..3u32 {
        let q = p.wrapping_add(d).wrapping_sub(1);
        data.push((GridKey { phrase_id: q, lang_set: 1 }, vec![small_entry(4, 4)]));
    }
    let s = Spec::new(6, data);
    let path = Path::new();
    let store = s.build(&path);
    let key = MatchKey { match_phrase: MatchPhrase::Exact(p), lang_set: 1 };
    let opts = MatchOpts { zoom: 6, ..MatchOpts::default() };
    let got: Vec<_> = store.streaming_get_matching(&key, &opts, 10).unwrap().map(|e| mkey(&e)).collect();
    let want: Vec<_> = expected_matches(&s.data, &key, &opts, 0.0).iter().map(mkey).collect();
    assert!(got == want, "the entry of the phrase asked for");
    nd::reached("edge phrase");
}
