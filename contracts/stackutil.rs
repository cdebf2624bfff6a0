// Executable contracts: shared by C15..C20
use super::util::*;
use crate::gridstore::common::*;
use crate::gridstore::stackable::{stackable, StackableNode, StackableTree};
use crate::gridstore::store::GridStore;
use crate::gridstore::{coalesce, collapse_phrasematches, stack_and_coalesce, tree_coalesce};
use crate::nd;
use fixedbitset::FixedBitSet;
use super::expect::*;

pub type Sub<'s> = PhrasematchSubquery<&'s GridStore>;

pub fn bits(v: &[usize]) -> FixedBitSet {
    let mut b = FixedBitSet::with_capacity(128);
    for i in v {
        b.insert(*i);
    }
    b
}
pub fn ones(b: &FixedBitSet) -> Vec<usize> {
    b.ones().collect()
}
pub const WEIGHTS: [f64; 4] = [0.5, 0.25, 0.125, 1.0];

/// May `b` be put directly below `a` in a stack whose masks so far are `mask`?
pub fn may_follow(subs: &[Sub], a: usize, b: usize, mask: u32) -> bool {
    subs[a].store.type_id < subs[b].store.type_id
        && subs[b].mask & mask == 0
        && !subs[b].non_overlapping_indexes.contains(subs[a].idx as usize)
}

/// every stack (sequence of subqueries), each once, as index lists
pub fn all_stacks(subs: &[Sub]) -> Vec<Vec<usize>> {
    fn go(subs: &[Sub], path: &mut Vec<usize>, mask: u32, out: &mut Vec<Vec<usize>>) {
        let last = *path.last().unwrap();
        out.push(path.clone());
        for b in 0..subs.len() {
            if may_follow(subs, last, b, mask) {
                path.push(b);
                go(subs, path, mask | subs[b].mask, out);
                path.pop();
            }
        }
    }
    let mut out = vec![];
    for a in 0..subs.len() {
        go(subs, &mut vec![a], subs[a].mask, &mut out);
    }
    out
}

pub fn weight_of(subs: &[Sub], path: &[usize]) -> f64 {
    path.iter().fold(0.0, |a, i| a + subs[*i].weight)
}

/// the nodes of the tree as paths of subquery positions
pub fn tree_nodes<'t>(
    subs: &[Sub<'t>],
    tree: &'t StackableTree<'t, &'t GridStore>,
) -> Vec<(Vec<usize>, &'t StackableNode<'t, &'t GridStore>)> {
    let mut out = vec![];
    let mut todo: Vec<(Vec<usize>, &StackableNode<&GridStore>)> = vec![(vec![], &tree.root)];
    while let Some((path, node)) = todo.pop() {
        for c in &node.children {
            if let Some(ch) = tree.arena.get(*c) {
                let pm = ch.phrasematch.expect("only the root has no subquery");
                let i = (0..subs.len())
                    .find(|i| std::ptr::eq(pm, &subs[*i]) || (pm.idx == subs[*i].idx && pm.mask == subs[*i].mask && pm.weight == subs[*i].weight))
                    .expect("a subquery of the query");
                let mut p = path.clone();
                p.push(i);
                todo.push((p, ch));
            }
        }
        if !path.is_empty() {
            out.push((path, node));
        }
    }
    out
}

/// a tile at `zoom` out of a small nest of tiles (so that different zooms share ancestors)
pub fn nest_tile(zoom: u16) -> (u16, u16) {
    let base = 3u16.min(zoom);
    let hx = if base == 0 { 0 } else { (nd::below(2) as u16) << (zoom - base) };
    let hy = (if base > 0 && nd::below(4) == 0 { 1u16 } else { 0 }) << (zoom - base);
    let d = if zoom > base { nd::below(2) as u16 } else { 0 };
    (hx | d, hy)
}

pub fn nest_entries(zoom: u16, max: u32, nid: u32, unique: bool) -> Vec<GridEntry> {
    let mut out: Vec<GridEntry> = vec![];
    for _ in 0..nd::below(max + 1) {
        let (x, y) = nest_tile(zoom);
        let e = GridEntry {
            relev: nd::pick(&RELEVS),
            score: nd::pick(&[0u8, 1, 5]),
            x,
            y,
            id: nd::below(nid),
            source_phrase_hash: nd::below(2) as u8,
        };
        if unique && out.iter().any(|o| (o.x, o.y, o.id) == (e.x, e.y, e.id)) {
            continue;
        }
        out.push(e);
    }
    out
}

pub fn query_opts(zoom: u16, bbox: bool, prox: bool) -> MatchOpts {
    MatchOpts {
        zoom,
        bbox: if bbox && nd::below(3) == 0 {
            let (a, b) = (nest_tile(zoom), nest_tile(zoom));
            Some([a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1)])
        } else {
            None
        },
        proximity: if prox && nd::flag() {
            let p = nest_tile(zoom);
            Some([p.0, p.1])
        } else {
            None
        },
    }
}

/// what the store of `sub` yields for one of its keys
pub fn grids_of(
    data: &[(GridKey, Vec<GridEntry>)],
    sub: &Sub,
    key: &MatchKeyWithId,
    opts: &MatchOpts,
) -> Vec<MatchEntry> {
    let o = opts.adjust_to_zoom(sub.store.zoom);
    let o = if key.nearby_only { o.with_nearby_only() } else { o };
    expected_matches(data, &key.key, &o, sub.store.coalesce_radius)
}

/// does this result entry come from that stored entry through that subquery?
pub fn is_entry(e: &CoalesceEntry, g: &MatchEntry, sub: &Sub) -> bool {
    e.grid_entry.relev == g.grid_entry.relev * sub.weight
        && e.grid_entry.score == g.grid_entry.score
        && e.grid_entry.x == g.grid_entry.x
        && e.grid_entry.y == g.grid_entry.y
        && e.grid_entry.id == g.grid_entry.id
        && e.grid_entry.source_phrase_hash == g.grid_entry.source_phrase_hash
        && e.matches_language == g.matches_language
        && e.distance == g.distance
        && e.scoredist == g.scoredist
        && e.idx == sub.idx
        && e.mask == sub.mask
        && e.tmp_id == ((sub.idx as u32) << 25) + g.grid_entry.id
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-9
}

pub fn context_key(c: &CoalesceContext) -> (u64, u64, std::cmp::Reverse<u16>, u16, u16, u32) {
    let e = &c.entries[0];
    // (both are non-negative, so their bit patterns are ordered as they are)
    (c.relev.to_bits(), e.scoredist.to_bits(), std::cmp::Reverse(e.idx), e.grid_entry.x, e.grid_entry.y, e.grid_entry.id)
}

pub fn best_first(cs: &[CoalesceContext]) -> bool {
    cs.windows(2).all(|w| context_key(&w[0]) >= context_key(&w[1]))
}

pub struct World {
    pub specs: Vec<Spec>,
    pub zooms: Vec<u16>,
}

/// boxes that cover all the data: none (the whole world), a single tight one, or one per tile
pub fn cover(data: &[(GridKey, Vec<GridEntry>)]) -> Option<Vec<[u16; 4]>> {
    let all: Vec<(u16, u16)> = data.iter().flat_map(|(_, es)| es.iter().map(|e| (e.x, e.y))).collect();
    if all.is_empty() {
        return None;
    }
    match nd::below(3) {
        0 => None,
        1 => Some(vec![[
            all.iter().map(|p| p.0).min().unwrap(),
            all.iter().map(|p| p.1).min().unwrap(),
            all.iter().map(|p| p.0).max().unwrap(),
            all.iter().map(|p| p.1).max().unwrap(),
        ]]),
        _ => Some(all.iter().map(|p| [p.0, p.1, p.0, p.1]).collect()),
    }
}

/// stores of ascending type and zoom, `n_phr` phrases each
pub fn world(n: usize, n_phr: u32, max: u32, zooms: Vec<u16>, unique: bool, radius: f64) -> World {
    let mut specs = vec![];
    for t in 0..n {
        let mut data = vec![];
        for p in 0..n_phr {
            data.push((GridKey { phrase_id: p, lang_set: nd::pick(&[1u128, 1, 2]) }, nest_entries(zooms[t], max, 4, unique)));
        }
        let mut spec = Spec { type_id: t as u16, radius, ..Spec::new(zooms[t], data) };
        if let Some(b) = cover(&spec.data) {
            spec.bboxes = b;
        }
        specs.push(spec);
    }
    World { specs, zooms }
}

pub fn zoom_sets() -> Vec<u16> {
    [[4u16, 6, 6], [3, 3, 6], [6, 9, 12], [3, 6, 13]][nd::below(4) as usize].to_vec()
}

/// is `c`'s tile an ancestor of (or the same as) `e`'s, given their zooms?
pub fn ancestor(c: &CoalesceEntry, cz: u16, e: &CoalesceEntry, ez: u16) -> bool {
    cz <= ez
        && (e.grid_entry.x as u32 >> (ez - cz)) == c.grid_entry.x as u32
        && (e.grid_entry.y as u32 >> (ez - cz)) == c.grid_entry.y as u32
}
