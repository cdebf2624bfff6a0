"""Lay out a crate made of /repo's current library source plus the contracts.

What is changed in the copied text (and nothing else):
  * lib.rs: lines are appended that declare the modules `nd`, `vdrv` (native) and, for the Kani
    build only, `extern crate stdshim as std;` is put in front (collections with the same
    contract but without hashing/B-trees);
  * gridstore/mod.rs: `pub mod vapi { ... }` is appended;
  * gridstore/<m>.rs: `pub mod vh` is appended (a child module, so it sees private items).
No line of the library itself is rewritten.
"""
import os, re, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

NATIVE_DEPS = """
serde = { version = "1.0", features = ["derive", "rc"] }
integer-encoding = "1.0"
itertools = "0.8"
byteorder = "1.3"
ordered-float = "1.0"
failure = "0.1.5"
smallvec = "0.6.10"
rayon = "1.2"
fixedbitset = "0.3.0"
generational-arena = "0.2.7"
indexmap = "1.3"
fxhash = "0.2.1"
min-max-heap = { path = "%(v)s/standins/min-max-heap" }
morton = { path = "%(v)s/standins/morton" }
rocksdb = { path = "%(v)s/standins/rocksdb" }
static-bushes = { path = "%(v)s/standins/static-bushes" }
"""
KANI_DEPS = """
serde = { path = "%(v)s/kdeps/serde", features = ["derive", "rc"] }
integer-encoding = "1.0"
itertools = "0.8"
byteorder = { path = "%(v)s/kdeps/byteorder" }
ordered-float = "1.0"
failure = { path = "%(v)s/kdeps/failure" }
smallvec = "0.6.10"
rayon = { path = "%(v)s/kdeps/rayon" }
fixedbitset = "0.3.0"
generational-arena = "0.2.7"
indexmap = { path = "%(v)s/kdeps/indexmap" }
fxhash = { path = "%(v)s/kdeps/fxhash" }
stdshim = { path = "%(v)s/kdeps/stdshim" }
min-max-heap = { path = "%(v)s/standins/min-max-heap" }
morton = { path = "%(v)s/standins/morton" }
rocksdb = { path = "%(v)s/standins/rocksdb" }
static-bushes = { path = "%(v)s/standins/static-bushes" }
"""


def src_dir():
    return os.path.join(REPO, "rust-src", "src")


def append(path, text):
    with open(path, "a") as f:
        f.write("\n" + text)


def assemble(dst, kind, parts, name):
    """kind: 'native' or 'kani'; parts: contract files to include, e.g. ['api', 'spatial']."""
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    shutil.copytree(src_dir(), os.path.join(dst, "src"))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, dst)
    c = os.path.join(VERIF, "contracts")
    lib = os.path.join(dst, "src", "lib.rs")
    text = open(lib).read()
    head = "#![allow(warnings)]\n"
    if kind == "kani":
        head += "#![feature(allocator_api)]\nextern crate stdshim as std;\n"
    with open(lib, "w") as f:
        f.write(head + text)
    append(lib, '#[path = "%s/lib/nd.rs"]\npub mod nd;\n' % VERIF)
    if kind == "native":
        append(lib, '#[path = "%s/lib/vdrv.rs"]\npub mod vdrv;\n' % VERIF)
    g = os.path.join(dst, "src", "gridstore")
    entries = []
    body = []
    for p in parts:
        # api parts are modules of vapi; "in_<module>" parts are child modules of library modules
        if p.startswith("in_"):
            append(os.path.join(g, p[3:] + ".rs"), '#[path = "%s/%s.rs"]\npub mod vh;\n' % (c, p))
            m = "super::%s::vh" % p[3:]
        else:
            body.append('#[path = "%s/%s.rs"] pub mod %s;' % (c, p, p))
            m = p
        text = open("%s/%s.rs" % (c, p)).read()
        entries += ['("%s", %s::%s as fn())' % (f, m, f) for f in re.findall(r"(?m)^pub fn (c\d\d_\w+)\(\) \{", text)]
    if kind == "native":
        body.append("pub fn table() -> Vec<(&'static str, fn())> { vec![%s] }" % ", ".join(entries))
    else:
        for p in parts:
            k = "%s/kani_%s.rs" % (c, p)
            if os.path.exists(k):
                body.append('#[cfg(kani)] #[path = "%s"] mod kani_%s;' % (k, p))
    append(os.path.join(g, "mod.rs"), "pub mod vapi {\n    " + "\n    ".join(body) + "\n}\n")
    deps = (NATIVE_DEPS if kind == "native" else KANI_DEPS) % {"v": VERIF}
    with open(os.path.join(dst, "Cargo.toml"), "w") as f:
        f.write(
            '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]%s\n[workspace]\n'
            "[profile.dev]\nopt-level = 1\ndebug = 0\ndebug-assertions = true\noverflow-checks = true\n"
            "incremental = false\n" % (name, deps)
        )
    if kind == "native":
        with open(os.path.join(dst, "src", "main.rs"), "w") as f:
            f.write("fn main() {\n    %s::vdrv::main()\n}\n" % name)


if __name__ == "__main__":
    import sys
    assemble(sys.argv[1], sys.argv[2], sys.argv[3].split(","), "vcrate")
