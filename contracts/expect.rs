// What a query on a store must return (specification side).
use super::util::*;
use crate::gridstore::common::*;
use crate::nd;

/// What a query must return: every distinct stored entry of every matching key, inside the box,
/// with the language penalty (0.96) unless the key matches the language or the entry lies within
/// the proximity radius.
pub fn expected_matches(
    data: &[(GridKey, Vec<GridEntry>)],
    key: &MatchKey,
    opts: &MatchOpts,
    radius: f64,
) -> Vec<MatchEntry> {
    use crate::gridstore::spatial;
    let mut merged: std::collections::BTreeMap<GridKey, Vec<GridEntry>> = Default::default();
    for (k, v) in data {
        merged.entry(k.clone()).or_insert_with(Vec::new).extend(v.iter().cloned());
    }
    let mut out = vec![];
    for (k, v) in merged {
        let hit = match key.match_phrase {
            MatchPhrase::Exact(p) => p == k.phrase_id,
            MatchPhrase::Range { start, end } => start <= k.phrase_id && k.phrase_id < end,
        };
        if !hit {
            continue;
        }
        let lang = k.lang_set == std::u128::MAX || k.lang_set & key.lang_set != 0;
        let mut seen: Vec<EKey> = vec![];
        for e in v {
            if seen.contains(&ekey(&e)) {
                continue;
            }
            seen.push(ekey(&e));
            if let Some(b) = &opts.bbox {
                if !inside(b, e.x, e.y) {
                    continue;
                }
            }
            let (distance, near, scoredist) = match opts.proximity {
                Some(p) => {
                    let d = spatial::tile_dist(p[0], p[1], e.x, e.y);
                    (
                        d,
                        d <= spatial::proximity_radius(opts.zoom, radius),
                        spatial::scoredist(opts.zoom, d, e.score, radius),
                    )
                }
                None => (0.0, false, e.score as f64),
            };
            let relev = e.relev * if lang || near { 1.0 } else { 0.96 };
            out.push(MatchEntry {
                grid_entry: GridEntry { relev, ..e },
                matches_language: lang,
                distance,
                scoredist,
            });
        }
    }
    out
}
