"""
One unit of work, in its own process: generate scenarios with TLC, drive the real code with them,
validate the recorded trace with TLC.  Usage: python -B -m zkv.unit '<json>'; prints one JSON line.
"""
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True


def generate(family, n, seed, work):
    from . import tlc
    out = os.path.join(work, "gen.json")
    code, text, _ = tlc.run("ZkGen", env={"ZK_N": str(n), "ZK_FAMILY": family, "ZK_OUT": out},
                            args=["-seed", str(seed)], heap="1g")
    if code != 0 or not os.path.exists(out):
        raise tlc.TlcError("generation failed\n" + text[-2000:])
    with open(out) as f:
        return json.load(f)


def run(u, work):
    from . import tlc
    t0 = time.time()
    rng = random.Random(u["seed"] * 1000003 + u.get("salt", 0))
    recs = generate(u["family"], u["n"], u["seed"] * 7919 % 1000003 + u.get("salt", 0), work) if u.get("family") else [{}] * u["n"]
    t1 = time.time()
    from .world import Toy, World
    w = World(Toy(u.get("profile", "big")))
    from . import drivers, special, sigs
    table = dict(drivers.DRIVERS)
    table.update(special.DRIVERS)
    table.update(sigs.DRIVERS)
    fns = [table[d] for d in u["drivers"]]
    starts = []
    deadline = t1 + u.get("budget", 40)
    done = 0
    for i, rec in enumerate(recs):
        if time.time() > deadline:
            break
        before = len(w.events)
        starts.append(before)
        fns[i % len(fns)](w, rec, rng, **u.get("args", {}))
        done += 1
        if len(w.events) > u.get("max_events", 10 ** 9):
            break
    return validate(w, starts, work, u, t1 - t0, time.time() - t1)


def validate(w, starts, work, u, t_gen, t_drive):
    """Validate the trace recorded by a world."""
    from . import tlc
    # traces are validated in pieces of whole scenarios
    cuts, limit = [0], u.get("chunk", 6000)
    for i, st in enumerate(starts):
        nxt = starts[i + 1] if i + 1 < len(starts) else len(w.events)
        if nxt - cuts[-1] > limit and st > cuts[-1]:
            cuts.append(st)
    cuts.append(len(w.events))
    res = {"bad": [], "degen": 0, "events": len(w.events), "states": 0, "scenarios": len(starts), "calls": w.ncalls,
           "t_gen": t_gen, "t_drive": t_drive, "t_tlc": 0}
    path = os.path.join(work, "trace.json")
    for lo, hi in zip(cuts, cuts[1:]):
        with open(path, "w") as f:
            json.dump([{"groups": w.realm.groups, "climbs": 8}] + w.events[lo:hi], f)
        r = tlc.check_trace(path, timeout=u.get("tlc_timeout", 700))
        res["bad"] += [[c, ev + lo if ev else ev, tag] for c, ev, tag in r["bad"]]
        for k, x in (("degen", r["degen"]), ("states", r["states"]), ("t_tlc", r["secs"])):
            res[k] += x
    kinds = {}
    for e in w.events:
        k = e["ev"] + ":" + str(e.get("out", ""))
        kinds[k] = kinds.get(k, 0) + 1
    res["kinds"] = kinds
    # the scenarios behind the first violations
    res["where"] = []
    for clause, ev, tag in sorted(res["bad"], key=lambda b: b[1])[:6]:
        i = max([j for j, s in enumerate(starts) if s <= ev - 2] or [0])
        res["where"].append({"clause": clause, "event": ev, "tag": tag, "scenario": i,
                             "events": w.events[starts[i]:ev - 1]})
    j = starts[0] if starts else 0
    res["sample"] = w.events[j:j + 8]
    return res


def main():
    u = json.loads(sys.argv[1])
    work = tempfile.mkdtemp(prefix="zkv-unit-")
    try:
        mod = u.get("module")
        if mod:
            import importlib
            res = importlib.import_module("zkv." + mod).run(u, work)
        else:
            res = run(u, work)
    except BaseException:
        res = {"error": traceback.format_exc()[-3000:]}
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.__stdout__.write("\nZKUNIT " + json.dumps(res) + "\n")
    sys.__stdout__.flush()


if __name__ == "__main__":
    main()
