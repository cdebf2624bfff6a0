"""Verify one unit (contracts/verus/<unit>.vspec) against the current source with Verus."""
import json, os, re, subprocess, time
import vextract as V

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "contracts", "verus")
HARD = ("postcondition not satisfied", "precondition not satisfied", "possible arithmetic underflow/overflow",
        "possible division by zero", "invariant not satisfied", "possible bit shift", "index out of bounds",
        "decreases not satisfied", "possible truncation", "loop invariant not satisfied")
HINT = ("assertion failed", "assert")


def verus(path, args, timeout, errs=3):
    cmd = ["verus", os.path.basename(path), "--output-json", "--time-expanded", "--multiple-errors", str(errs)] + args
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return dict(status="timeout", cmd=" ".join(cmd), wall=time.time() - t0)
    try:
        j = json.loads(out[out.index("{"):])
    except ValueError:
        return dict(status="tool", cmd=" ".join(cmd), err=err[-2000:], wall=time.time() - t0)
    r = j.get("verification-results", {})
    fns = []
    smt = j.get("times-ms", {}).get("smt", {})
    for m in smt.get("smt-run-module-times", []) if isinstance(smt, dict) else []:
        for f in m.get("function-breakdown", []):
            fns.append((f["function"].split("::", 1)[1], f.get("mode:", f.get("mode")), f["success"], f["time"]))
    return dict(status="ok" if r.get("success") or (r.get("verified") and not r.get("errors") and not r.get("encountered-error")) else "errors", verified=r.get("verified", 0), errors=r.get("errors", 0),
                vir_error=r.get("encountered-vir-error", True), err=err, fns=fns, wall=time.time() - t0,
                smt_ms=smt.get("smt-run", 0) if isinstance(smt, dict) else 0, cmd=" ".join(cmd))


def diagnostics(err):
    """-> [(kind, line, text)]"""
    out = []
    for blk in re.split(r"\n(?=error)", "\n" + err):
        m = re.match(r"\s*error(?:\[\w+\])?: (.*)", blk)
        if not m or m.group(1).startswith("aborting"):
            continue
        loc = re.search(r"--> [^:\n]+:(\d+):", blk)
        out.append((m.group(1).strip(), int(loc.group(1)) if loc else 0, blk.strip()[:2500]))
    return out


def fn_at(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.search(r"\bfn\s+(\w+)", lines[i])
        if m and not lines[i].strip().startswith("//"):
            return m.group(1)
    return "?"


def proof_lines(text):
    """lines inside `proof { .. }` blocks"""
    m = V.mask(text)
    out = set()
    for x in re.finditer(r"\bproof\s*\{", m):
        try:
            e = V.match_close(m, x.end() - 1)
        except V.Lost:
            continue
        out |= set(range(text.count("\n", 0, x.start()) + 1, text.count("\n", 0, e) + 2))
    return out


def run_unit(unit, src, work, timeout=500, canary=True):
    """-> dict(unit, status: proved|lost|undecided|failed, ...)"""
    spec = os.path.join(SPECS, unit + ".vspec")
    res = dict(unit=unit, status="lost", reason="", functions=[], verified=0, errors=0, smt_ms=0, wall=0.0, runs=[])
    try:
        ex = V.extract(spec, src)
    except (V.Lost, OSError, AssertionError, IndexError) as e:
        res["reason"] = "the annotated text no longer matches the source: %s" % e
        return res
    os.makedirs(work, exist_ok=True)
    main = os.path.join(work, unit + ".rs")
    with open(main, "w") as f:
        f.write(ex.text)
    res.update(functions=ex.fns, dropped=ex.dropped, substs=ex.substs, assumed=ex.assumed)
    jobs = [(main, [])]
    for c in ex.clients:
        p = os.path.join(work, "%s_%s.rs" % (unit, c))
        with open(p, "w") as f:
            f.write(ex.with_client(c))
        jobs.append((p, ["--verify-module", c]))
    fails = []
    for p, args in jobs:
        r = verus(p, args, timeout)
        res["runs"].append(r["cmd"])
        res["wall"] += r["wall"]
        if r["status"] in ("timeout", "tool"):
            res.update(status="undecided", reason="verus: %s %s" % (r["status"], r.get("err", "")))
            return res
        res["verified"] += r["verified"]
        res["errors"] += r["errors"]
        res["smt_ms"] += r["smt_ms"]
        res.setdefault("fn_times", []).extend(r["fns"])
        if r["status"] == "ok":
            continue
        lines = open(p).read().split("\n")
        ds = diagnostics(r["err"])
        if r["vir_error"] or r["errors"] == 0:
            res.update(status="lost", reason="the extracted text is outside what the verifier accepts: "
                       + "; ".join("%s (line %d)" % (k, n) for k, n, _ in ds[:3]))
            return res
        hints = proof_lines("\n".join(lines))
        for k, n, t in ds:
            # what a hint (a lemma called in a proof block) needs is no claim about the code
            hard = any(k.startswith(h) for h in HARD) and n not in hints
            if k.startswith("assertion failed") and "debug_assert" in t:
                hard = True
            fails.append(dict(kind=k, fn=fn_at(lines, n), line=n, hard=hard, text=t))
    if fails:
        hard = [f for f in fails if f["hard"]]
        res["failed"] = fails
        unknown = [f for f in fails if "rlimit" in f["kind"].lower() or "Resource limit" in f["kind"]]
        if hard:
            res["status"] = "failed"
            res["reason"] = "; ".join("%s in %s" % (f["kind"], f["fn"]) for f in hard[:4])
        else:
            res["status"] = "undecided"
            res["reason"] = ("resource limit; " if unknown else "only proof hints fail: ") + "; ".join("%s in %s" % (f["kind"], f["fn"]) for f in fails[:4])
        return res
    res["status"] = "proved"
    if canary:
        # no contract may be vacuous: `assert(false)` at the start of each function must fail
        cx = V.extract(spec, src, canary=True)
        p = os.path.join(work, unit + "_canary.rs")
        with open(p, "w") as f:
            f.write(cx.text)
        r = verus(p, ["--rlimit", "4"], timeout, 0)
        res["wall"] += r["wall"]
        want = cx.text.count("assert(false); /*canary*/")
        lines = cx.text.split("\n")
        hit = {n for k, n, _ in diagnostics(r.get("err", "")) if n and "/*canary*/" in lines[n - 1]}
        # the solver gave up before it could prove `false`
        gave_up = {fn_at(lines, n) for k, n, _ in diagnostics(r.get("err", "")) if "Resource limit" in k and k.startswith("function body")}
        missing = [fn_at(lines, i + 1) for i, l in enumerate(lines) if "/*canary*/" in l and i + 1 not in hit]
        res["canary"] = dict(placed=want, refuted=len(hit), not_proved_within_limit=sorted(gave_up & set(missing)))
        missing = [f for f in missing if f not in gave_up]
        if missing:
            res["status"] = "undecided"
            res["reason"] = "vacuous contracts: %s" % missing[:5]
    return res


if __name__ == "__main__":
    import sys
    r = run_unit(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo/rust-src/src/gridstore", "/tmp/vw")
    for k in ("functions", "fn_times", "runs", "assumed", "substs", "dropped"):
        if k in r:
            r[k] = len(r[k])
    print(json.dumps(r, indent=1))
