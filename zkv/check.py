"""
Decides one property: bin/check <id> [quick|thorough].  Exit 0: held on everything explored;
exit 1 with VIOLATION lines: broken; exit 2: the machinery failed.
"""
import concurrent.futures
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
EVIDENCE = os.environ.get("ZKV_EVIDENCE", os.path.join(ROOT, "evidence"))
WORKERS = 8


def run_unit(u):
    """Run one unit in its own process."""
    env = dict(os.environ)
    env["PYTHONPATH"] = ROOT + ":" + os.environ.get("ZKV_CODE", "/repo")   # (a scratch copy, when trying planted bugs)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    t = time.time()
    try:
        p = subprocess.run([PY, "-B", "-m", "zkv.unit", json.dumps(u)], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, cwd=ROOT, timeout=u.get("timeout", 800))
    except subprocess.TimeoutExpired:
        return {"error": "unit timed out"}
    for line in p.stdout.decode(errors="replace").split("\n"):
        if line.startswith("ZKUNIT "):
            r = json.loads(line[7:])
            r["wall"] = time.time() - t
            return r
    if p.returncode < 0 and -p.returncode in (4, 6, 7, 8, 11):
        # the code under test took the process down
        return {"bad": [["process.died", 0, "signal %d" % -p.returncode]], "events": 0, "states": 0, "calls": 0,
                "scenarios": 0, "degen": 0, "where": [], "wall": time.time() - t}
    return {"error": "no result (%s)\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:])}


def run_model(m):
    """Model-check one configuration of a design model; errors of the design are machinery failures."""
    from . import tlc
    t = time.time()
    try:
        code, out, secs = tlc.run(m["module"], cfg=m.get("cfg"), workers=m.get("workers", 2),
                                  heap=m.get("heap", "2g"), timeout=m.get("timeout", 800), args=m.get("args", []),
                                  env=dict({"ZK_OUT": "/dev/null"}, **m.get("env", {})))
    except tlc.TlcError as e:
        return {"error": str(e)}
    s, d = tlc.counts(out)
    if code != 0:
        return {"error": "model %s failed\n%s" % (m, tlc.brief(out))}
    return {"model": m.get("cfg", m["module"]) + "".join(" %s=%s" % kv for kv in sorted(m.get("env", {}).items())), "states": s, "distinct": d, "wall": time.time() - t}


def known_findings(pid):
    res = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                res.append(line.strip()[len("finding: property=%s " % pid):])
    return res


def main():
    from . import plan
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    prop = plan.plan(pid, tier, seed)
    units, models = prop["units"], prop.get("models", [])
    # longest first
    jobs = [(run_model, m, m.get("workers", 2) > 4) for m in models] + [(run_unit, u, False) for u in units]
    results = []
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        futs = [(ex.submit(f, x), f, x) for f, x, _ in jobs]
        for fu, f, x in futs:
            results.append((f, x, fu.result()))
    errors = [(x, r["error"]) for f, x, r in results if "error" in r]
    if errors:
        # once more, alone: the machine may have been short of something
        for i, (f, x, r) in enumerate(results):
            if "error" in r:
                results[i] = (f, x, f(x))
        errors = [(x, r["error"]) for f, x, r in results if "error" in r]
    relevant = prop["clauses"]
    bad, other = [], []
    kinds, states, trans, events, calls, scen, evals = {}, 0, 0, 0, 0, 0, 0
    samples, mstates, models_run, notes = [], 0, [], []
    degen = 0
    for f, x, r in results:
        if "error" in r:
            continue
        if f is run_model:
            mstates += r["distinct"]
            trans += r["states"]
            models_run.append({"model": r["model"], "distinct_states": r["distinct"], "states_generated": r["states"], "wall_s": round(r["wall"], 1)})
            continue
        states += r.get("states", 0)
        events += r.get("events", 0)
        calls += r.get("calls", 0)
        scen += r.get("scenarios", 0)
        degen += r.get("degen", 0)
        for k, v in r.get("kinds", {}).items():
            kinds[k] = kinds.get(k, 0) + v
        if r.get("sample") and len(samples) < 3:
            samples.append({"unit": x, "events": r["sample"]})
        if r.get("note"):
            notes.append(r["note"])
        for b in r["bad"]:
            (bad if plan.relevant(b[0], relevant) else other).append((x, r, b))
    if degen > 5 + calls // 2500:   # events of probability 1/10007
        bad.append(({}, {}, ["chance.invalid", 0, "%d honest proofs were invalid by chance" % degen]))
    os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
    seen = {}
    viol = []
    known = known_findings(pid)
    for x, r, b in sorted(bad, key=lambda z: (z[2][0], z[2][1])):
        kf = [k for k in known if k.split(" ")[0] == "clause=" + b[0] and k.split(" ")[1] == "tag=" + str(b[2])]
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf[0]))
            continue
        seen.setdefault(b[0], []).append((x, r, b))
    for clause, items in seen.items():
        x, r, b = items[0]
        w = [y for y in r.get("where", []) if y["clause"] == clause] or r.get("where", [])
        path = os.path.join(EVIDENCE, "replay", "%s-%s.json" % (pid, clause.replace(".", "_")))
        with open(path, "w") as f:
            json.dump({"property": pid, "clause": clause, "occurrences": len(items), "unit": x, "event": b,
                       "recorded": w[:1], "rerun": "bin/replay " + path}, f, indent=1)
        print("  clause %s violated (%d times), e.g. event %s %s" % (clause, len(items), b[1], b[2]))
        viol.append((clause, path))
    for clause in sorted({b[0] for _, _, b in other}):
        print("note: clause %s (not part of this property) was violated" % clause)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop["level"], "wall_s": round(wall, 1),
          "violations": len(viol), "assumptions": prop["assumptions"],
          "coverage": {"states": states + mstates, "transitions": trans + events,
                       "traces_validated_against_impl": scen, "evaluations": calls,
                       "distinct_nontrivial": events,
                       "rule": "evaluations: calls of the library's public interface; distinct_nontrivial: recorded events "
                               "judged by TLC against the specification; states: distinct states of the models plus states of "
                               "the trace specification",
                       "events_by_kind_and_outcome": kinds, "models": models_run, "notes": notes, "samples": samples}}
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d calls, %d events validated, %d model states, %.0f s" %
          (pid, tier, scen, calls, events, mstates, wall))
    if viol:
        for clause, path in viol:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for x, e in errors[:3]:
            print("MACHINERY ERROR in %s\n%s" % (json.dumps(x), e[-3000:]), file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
