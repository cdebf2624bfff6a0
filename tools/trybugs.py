#!/usr/bin/env python3
"""trybugs.py [id...]: run each planted bug's check on a scratch copy of /repo with the bug applied."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="try-")
    subprocess.run("git clone -q /repo %s/repo && cd %s/repo && git apply %s/patch.diff" % (t, t, d), shell=True, check=True)
    env = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_WORK=t + "/w", VERIF_EVIDENCE=t + "/e", VERIF_REPLAYS=t + "/r")
    r = subprocess.run(["python3", V + "/check.py", prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(i, prop, "exit", r.returncode, r.stdout.strip()[-300:].replace("\n", " | "), flush=True)
    shutil.rmtree(t)
