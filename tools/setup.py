#!/usr/bin/env python3
"""Nothing has to be built ahead: every check assembles and builds its own crate from /repo.
This only makes sure the tools and the vendored crates are there."""
import subprocess, sys
for cmd in (["cargo", "--version"], ["cargo", "kani", "--version"], ["verus", "--version"]):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(cmd), "->", r.stdout.strip().splitlines()[:3])
    if r.returncode:
        sys.exit(1)
