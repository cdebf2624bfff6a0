#!/usr/bin/env python3
"""check.py <property>            decide one property on /repo's current tree
   check.py --replay <file>       run a recorded violation again on /repo's current tree

Environment: VERIF_TIER=quick|thorough, VERIF_SEED, VERIF_REPO (default /repo; for experiments).
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Anything else: the check could not decide.
"""
import fcntl, json, os, re, subprocess, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import assemble as A  # noqa: E402
import verusrun  # noqa: E402
from props import PROPS  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(VERIF, "replays"))
CORES = os.cpu_count() or 8


class Undecided(Exception):
    pass


def run(cmd, cwd, timeout, env=None):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **(env or {}))
    e.pop("RUSTFLAGS", None)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err


def write_replay(prop, data):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s.json" % (prop, re.sub(r"\W+", "_", data.get("contract") or data.get("obligation", "x"))[:60])
    path = os.path.join(REPLAYS, name)
    data = dict(data, property=prop, how="python3 %s/check.py --replay %s" % (VERIF, path))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


# ------------------------------------------------------------------ native executable contracts
def build_native(prop, parts):
    d = os.path.join(WORK, prop, "native")
    A.assemble(d, "native", parts, "vcrate")
    rc, out, err = run(["cargo", "build", "--quiet"], d, 600)
    if rc != 0:
        raise Undecided("the library with contracts %s does not compile: %s" % (parts, err[-3000:]))
    return os.path.join(d, "target", "debug", "vcrate")


def native_replay(exe, contract, draws):
    rc, out, err = run([exe, "replay", contract, draws], os.path.dirname(exe), 120)
    if rc == 0:
        return False, out.strip()
    return True, (out + err).strip()[-2000:]


def run_contract(exe, contract, mode, budget_ms, seed, threads):
    """-> (result dict, violation dict or None)"""
    log = os.path.join(os.path.dirname(exe), "log-%s-%s" % (contract, mode))
    if os.path.exists(log):
        os.remove(log)
    t0 = time.time()
    rc, out, err = run([exe, "run", contract, mode, "1000000000", str(budget_ms), str(seed), str(threads)],
                       os.path.dirname(exe), budget_ms / 1000 + 120, {"VDRV_LOG": log})
    wall = round(time.time() - t0, 2)
    last = out.strip().splitlines()[-1] if out.strip() else ""
    if rc == 0 and last.startswith("{"):
        r = json.loads(last)
        if r.get("missing"):
            raise Undecided("contract %s is not in the crate" % contract)
        r.update(contract=contract, mode=mode, wall_s=wall)
        if r["fail"]:
            draws = ",".join(r["fail"]["trace"])
            return r, dict(contract=contract, draws=draws, message=r["fail"]["message"])
        return r, None
    if rc == 3 and last.startswith("{"):
        return None, dict(contract=contract, draws=json.loads(last)["hang"], message="the call does not return")
    # the process died: find the case that kills it
    cands = []
    if os.path.exists(log):
        raw = open(log, "rb").read()
        cands = [raw[i:i + 4000].decode(errors="replace").strip("\0 \n") for i in range(0, len(raw), 4000)]
    for c in cands:
        if c:
            broken, msg = native_replay(exe, contract, c)
            if broken:
                return None, dict(contract=contract, draws=c, message="the process dies: " + (msg or err[-500:]))
    raise Undecided("contract %s ended with %s: %s" % (contract, rc, err[-1500:]))


def native_layer(prop, cfg, out):
    t0 = time.time()
    exe = build_native(prop, cfg["parts"])
    out["native_build_s"] = round(time.time() - t0, 1)
    out["exe"] = exe
    total = (cfg.get("quick_s", 30) if TIER == "quick" else cfg.get("thorough_s", 420)) * 1000
    shares = sum(s for _, _, s in cfg["native"])
    out["native"] = []
    for contract, mode, share in cfg["native"]:
        r, v = run_contract(exe, contract, mode, int(total * share / shares), SEED, CORES)
        if r:
            out["native"].append(r)
        if v:
            broken, msg = native_replay(exe, contract, v["draws"])
            v["replayed"] = "reproduced" if broken else "not reproduced on a second run"
            v["parts"] = cfg["parts"]
            out["violation"] = v
            return
    for contract in {c for c, _, _ in cfg["native"]}:
        rs = [r for r in out["native"] if r["contract"] == contract]
        if not any(r["cases"] and r["reached"] for r in rs):
            raise Undecided("contract %s never reached its conclusion" % contract)


# ------------------------------------------------------------------ proofs
def proof_layer(prop, cfg, out):
    """Verus units and Kani leaf proofs, beside the native layer; never raises."""
    out["verus"], out["kani"] = [], []
    src = os.path.join(A.REPO, "rust-src", "src", "gridstore")

    def one(unit):
        try:
            r = verusrun.run_unit(unit, src, os.path.join(WORK, prop, "verus"))
        except Exception as e:  # noqa: BLE001
            r = dict(unit=unit, status="undecided", reason="machinery: %r" % e, functions=[], verified=0, errors=0, smt_ms=0, wall=0, runs=[])
        if unit not in cfg["verus"] and r["status"] == "failed":
            # decides another property; here its contracts are only used
            r.update(status="undecided", reason="a unit this one builds on fails: " + r["reason"])
        out["verus"].append(r)
    units = list(cfg.get("verus", [])) + [u for u in cfg.get("support", []) if u not in cfg.get("verus", [])]
    for u in list(units):
        units += [x for x in verusrun.V.uses(u, verusrun.SPECS) if x not in units]
    ts = [threading.Thread(target=one, args=(u,)) for u in units]
    if cfg.get("kani"):
        ts.append(threading.Thread(target=kani_layer, args=(prop, cfg, out)))
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def kani_layer(prop, cfg, out):
    d = os.path.join(WORK, prop, "kani")
    try:
        A.assemble(d, "kani", cfg.get("kani_parts", cfg["parts"]), "kcrate")
    except Exception as e:  # noqa: BLE001
        out["kani"].append(dict(harness="*", status="undecided", reason=repr(e), wall=0))
        return
    for h in cfg["kani"]:
        cmd = ["cargo", "kani", "--harness", h, "-Z", "unstable-options", "--no-assertion-reach-checks",
               "--no-memory-safety-checks", "-Z", "stubbing", "-Z", "concrete-playback", "--concrete-playback", "print"]
        t0 = time.time()
        rc, so, se = run(cmd, d, 500)
        r = dict(harness=h, wall=round(time.time() - t0, 1), cmd=" ".join(cmd[:4]))
        m = re.search(r"\*\* (\d+) of (\d+) failed", so)
        if "VERIFICATION:- SUCCESSFUL" in so and m:
            r.update(status="proved", checks=int(m.group(2)))
            c = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", so)
            if not c or c.group(1) == "0":
                r.update(status="undecided", reason="the harness never reaches its conclusion")
        elif "VERIFICATION:- FAILED" in so and m and int(m.group(1)) > 0 and "Failed Checks: unwinding assertion" not in so:
            fails = re.findall(r"Failed Checks: (.*)", so)
            soft = [f for f in fails if "is not currently supported" in f or "unwinding" in f]
            r.update(status="undecided" if soft else "failed", reason="; ".join(fails[:3]), draws=playback(so))
        else:
            r.update(status="undecided", reason=(so + se)[-600:])
        out["kani"].append(r)


def playback(so):
    """values of the counterexample, in the order they were drawn"""
    vals = []
    m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", so, re.S)
    if m:
        for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(1)):
            bs = [int(x) for x in v.split(",") if x.strip()]
            vals.append(str(int.from_bytes(bytes(bs), "little")))
    return ",".join(vals)


def proofs_to_violation(prop, cfg, out):
    """A proof that fails with its anchors intact is a violation; look for a failing input first."""
    bad = [("verus", r["unit"], f) for r in out["verus"] if r["status"] == "failed" for f in r["failed"] if f["hard"]]
    kbad = [r for r in out["kani"] if r["status"] == "failed"]
    if not bad and not kbad:
        return None
    for r in kbad:
        c = cfg.get("kani_native", {}).get(r["harness"])
        if c and r.get("draws"):
            broken, msg = native_replay(out["exe"], c, r["draws"])
            if broken:
                return dict(contract=c, draws=r["draws"], message=msg, replayed="reproduced", parts=cfg["parts"],
                            obligation="kani %s: %s" % (r["harness"], r["reason"]))
    for k in (1, 2, 3):
        for contract, mode, share in cfg["native"]:
            if mode == "random":
                r, v = run_contract(out["exe"], contract, mode, 12000, SEED + 1000 * k, CORES)
                if v:
                    broken, msg = native_replay(out["exe"], contract, v["draws"])
                    v.update(replayed="reproduced" if broken else "not reproduced on a second run", parts=cfg["parts"])
                    return v
    obs = ["%s in fn %s (unit %s)" % (f["kind"], f["fn"], u) for _, u, f in bad] + ["kani %s: %s" % (r["harness"], r["reason"]) for r in kbad]
    return dict(obligation=obs[0], obligations=obs, verifier_output=[f["text"] for _, _, f in bad][:6], noinput=True,
                message="; ".join(obs), replayed="no failing input found", parts=cfg["parts"])


# ------------------------------------------------------------------ main
def evidence(prop, cfg, out, wall, violations):
    native = out.get("native", [])
    verus, kani = out.get("verus", []), out.get("kani", [])
    proved = [r for r in verus if r["status"] == "proved"]
    kproved = [r for r in kani if r["status"] == "proved"]
    whole = bool(verus or kani) and len(proved) == len(verus) and len(kproved) == len(kani) and len(kani) >= len(cfg.get("kani", []))
    cov = {
        "explanation": cfg.get("explain", "") or (cfg["note"] if cfg["verus"] else "bounded execution of the contract on the real code"),
        "obligations": sum(r["verified"] + r["errors"] for r in verus) + len(kani),
        "discharged": sum(r["verified"] for r in proved) + len(kproved),
        "checker_cmd": "; ".join(x for r in verus for x in r["runs"]) or "; ".join(r.get("cmd", "") for r in kani) or "none",
        "trusted_base": sorted({a for r in verus for a in r.get("assumed", [])}) + cfg.get("trusted", [])
        + ["Verus 0.2026.09.13 with Z3", "lib/vextract.py (mechanical extraction; what it drops and substitutes is listed here)"],
        "rule_obligations": "one obligation bundle per function or lemma as the verifier counts them (postconditions, preconditions of callees, loop invariants, overflow, termination); one per Kani harness",
        "functions_under_contract": {r["unit"]: r["functions"] for r in verus},
        "proof_units": [{k: r.get(k) for k in ("unit", "status", "reason", "verified", "errors", "smt_ms", "wall", "canary")} for r in verus],
        "extraction_dropped": {r["unit"]: r.get("dropped", []) for r in verus},
        "extraction_substitutions": {r["unit"]: r.get("substs", []) for r in verus},
        "kani_harnesses": kani,
        "solver_time_s": round(sum(r["smt_ms"] for r in verus) / 1000 + sum(r["wall"] for r in kani), 1),
        "undecided_obligations": ["%s: %s" % (r.get("unit") or r.get("harness"), r.get("reason")) for r in verus + kani if r["status"] not in ("proved", "failed")],
        "contracts_executed": [
            {k: r[k] for k in ("contract", "mode", "cases", "rejected", "exhausted", "reached", "wall_s")} for r in native
        ],
        "evaluations": sum(r["cases"] for r in native),
        "rule": "each case is one set of draws for the contract's inputs; cases outside its precondition are not counted",
        "samples": [{"contract": r["contract"], "draws": r["samples"][-1]} for r in native if r.get("samples")][:4],
    }
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
        "level": cfg.get("level", "other") if whole or cfg.get("level") != "proof" else "other", "coverage": cov,
        "assumptions": cfg.get("assumptions", []) + BASE_ASSUMPTIONS,
        "wall_s": round(wall, 1), "violations": violations,
    }
    d = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


BASE_ASSUMPTIONS = [
    "rocksdb, min-max-heap, morton and static-bushes (git dependencies that are not available offline) are stood in for by /verif/standins, which implement their documented contracts",
]


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) contract=(\S+) draws=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def check(prop):
    cfg = PROPS[prop]
    t0 = time.time()
    out = {}
    os.makedirs(os.path.join(WORK, prop), exist_ok=True)
    th = threading.Thread(target=proof_layer, args=(prop, cfg, out))
    th.start()
    try:
        native_layer(prop, cfg, out)
    finally:
        th.join()
    v = out.get("violation")
    if v:
        v["failed_obligations"] = [f["kind"] + " in fn " + f["fn"] for r in out["verus"] for f in r.get("failed", []) if f["hard"]]
    else:
        v = proofs_to_violation(prop, cfg, out)
    evidence(prop, cfg, out, time.time() - t0, 1 if v else 0)
    if v:
        print("broken: %s: %s (%s)" % (v.get("contract", "proof"), v["message"], v["replayed"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, write_replay(prop, v), " no-failing-input-found" if v.get("noinput") else ""))
        return 1
    for r in out["verus"] + out["kani"]:
        if r["status"] == "proved":
            print("%s proved: %s" % (prop, r.get("unit") and "%s, %d obligation bundles, %d functions" % (r["unit"], r["verified"], len(r["functions"])) or r["harness"]))
        else:
            print("%s not established on this tree by proof: %s: %s" % (prop, r.get("unit") or r.get("harness"), r.get("reason", "")[:600]))
    n = sum(r["cases"] for r in out["native"])
    print("%s held: %d cases of %d contract runs, %.0f s" % (prop, n, len(out["native"]), time.time() - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    if d.get("noinput"):
        out = {}
        cfg = PROPS[d["property"]]
        proof_layer(d["property"], cfg, out)
        bad = [r for r in out["verus"] + out["kani"] if r["status"] == "failed"]
        for r in bad:
            print(r.get("reason"))
        return 1 if bad else 0
    exe = build_native("replay", d["parts"])
    broken, msg = native_replay(exe, d["contract"], d["draws"])
    print(msg)
    return 1 if broken else 0


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock-" + prop), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        try:
            return check(prop)
        except Undecided as e:
            print("%s undecided: %s" % (prop, e))
            return 2


if __name__ == "__main__":
    sys.exit(main())
