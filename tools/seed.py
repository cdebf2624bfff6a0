#!/usr/bin/env python3
"""seed.py make <def.py>...: build seeded/<id>/ from a definition and confirm it in a scratch copy.

A definition file sets: ID, PROP, NEEDS, BREAKS, EDITS = [(file under rust-src/src/gridstore, old, new)],
DEMO = rust source of `pub fn demo()` (a module of gridstore; sees private items), which panics when broken.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Builds the library of /repo (cwd) with the stand-ins beside this script and runs demo.rs in it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$t"' EXIT
mkdir "$t/c" && cp -r rust-src/src "$t/c/src" && cp Cargo.lock "$t/c/" 2>/dev/null
cp -r "$here/deps" "$t/deps" && cp "$here/demo.rs" "$t/c/src/gridstore/demo.rs" || exit 2
sed -i '1i #![allow(warnings)]' "$t/c/src/lib.rs"
printf '\npub mod demo;\n' >> "$t/c/src/gridstore/mod.rs"
sed -i 's/^mod gridstore;/pub mod gridstore;/' "$t/c/src/lib.rs"
cat > "$t/c/src/main.rs" <<'X'
fn main() { demolib::gridstore::demo::demo(); println!("ok"); }
X
cat > "$t/c/Cargo.toml" <<'X'
[package]
name = "demolib"
version = "0.1.0"
edition = "2018"
[workspace]
[profile.dev]
debug = 0
[dependencies]
serde = { version = "1.0", features = ["derive", "rc"] }
integer-encoding = "1.0"
itertools = "0.8"
byteorder = "1.3"
ordered-float = "1.0"
failure = "0.1.5"
smallvec = "0.6.10"
rayon = "1.2"
fixedbitset = "0.3.0"
generational-arena = "0.2.7"
indexmap = "1.3"
fxhash = "0.2.1"
min-max-heap = { path = "../deps/min-max-heap" }
morton = { path = "../deps/morton" }
rocksdb = { path = "../deps/rocksdb" }
static-bushes = { path = "../deps/static-bushes" }
X
cd "$t/c" && CARGO_NET_OFFLINE=true cargo build --quiet 2>build.log || { tail -30 build.log; exit 3; }
TMPDIR="$t" timeout 120 ./target/debug/demolib
'''


PRELUDE = r"""#![allow(warnings)]
use super::builder::*;
use super::coalesce::*;
use super::common::*;
use super::gridstore_format::*;
use super::spatial::*;
use super::stackable::*;
use super::store::*;
use fixedbitset::FixedBitSet;

pub fn e(relev: f64, score: u8, x: u16, y: u16, id: u32, hash: u8) -> GridEntry {
    GridEntry { relev, score, x, y, id, source_phrase_hash: hash }
}
pub fn key(phrase_id: u32, lang_set: u128) -> GridKey {
    GridKey { phrase_id, lang_set }
}
pub fn store(name: &str, zoom: u16, type_id: u16, bins: Vec<u32>, data: Vec<(GridKey, Vec<GridEntry>)>) -> GridStore {
    let path = std::env::temp_dir().join(name);
    let mut b = GridStoreBuilder::new(&path).unwrap();
    for (k, v) in data {
        b.append(&k, v).unwrap();
    }
    b.load_bin_boundaries(bins).unwrap();
    b.finish().unwrap();
    let m = ((1u32 << zoom) - 1) as u16;
    GridStore::new_with_options(&path, zoom, type_id, 400.0, vec![[0, 0, m, m]], 7.0).unwrap()
}
pub fn opts(zoom: u16) -> MatchOpts {
    MatchOpts { zoom, bbox: None, proximity: None }
}
pub fn exact(id: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Exact(id), lang_set }
}
pub fn range(start: u32, end: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set }
}
pub fn sub<'a>(s: &'a GridStore, idx: u16, mask: u32, weight: f64, keys: Vec<(MatchKey, u32)>) -> PhrasematchSubquery<&'a GridStore> {
    PhrasematchSubquery {
        store: s, idx, non_overlapping_indexes: FixedBitSet::with_capacity(128), weight, mask,
        match_keys: keys.into_iter().map(|(key, id)| MatchKeyWithId { key, id, ..MatchKeyWithId::default() }).collect(),
    }
}
pub fn coords(v: &[(u16, u16)]) -> (Vec<u8>, UniformVecOffset<Coord>) {
    let mut w = Writer::new();
    let ids = w.write_fixed_vec(&[1u32]);
    let mut z: Vec<u32> = v.iter().map(|(x, y)| morton::interleave_morton(*x, *y)).collect();
    z.sort();
    z.reverse();
    let cs: Vec<Coord> = z.into_iter().map(|coord| Coord { coord, ids }).collect();
    let o = w.write_uniform_vec(&cs);
    (w.finish(), o)
}
pub fn pts<I: Iterator<Item = Coord>>(i: Option<I>) -> Vec<(u16, u16)> {
    i.map_or(vec![], |i| i.map(|c| morton::deinterleave_morton(c.coord)).collect())
}

"""


def sh(cmd, cwd=None, t=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def make(path):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(V, "seeded", d["ID"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        sh("git clone -q /repo %s" % repo)
        for f, old, new in d["EDITS"]:
            p = os.path.join(repo, "rust-src/src/gridstore", f)
            s = open(p).read()
            assert s.count(old) == 1, (d["ID"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = sh("for f in $(git diff --name-only); do rustfmt --edition 2018 --emit stdout $f >/dev/null || exit 1; done", repo)
        assert r.returncode == 0, r.stdout
        diff = sh("git diff", repo).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.rs"), "w").write(PRELUDE + d["DEMO"])
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        shutil.copytree(os.path.join(V, "standins"), os.path.join(out, "deps"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        b = sh("bash %s/demo.sh" % out, repo)
        assert b.returncode != 3, "does not compile: " + b.stdout
        assert b.returncode != 0, "demo passes with the bug"
        sh("git checkout -q -- .", repo)
        g = sh("bash %s/demo.sh" % out, repo)
        assert g.returncode == 0, "demo fails without the bug: " + g.stdout
        print(d["ID"], "ok; with the bug:", b.stdout.strip()[:300].replace("\n", " | "))
    except AssertionError as e:
        print(d["ID"], "REJECTED:", str(e)[-2500:])
        shutil.rmtree(out)
    finally:
        shutil.rmtree(tmp)


from concurrent.futures import ThreadPoolExecutor
list(ThreadPoolExecutor(4).map(make, sys.argv[2:]))
