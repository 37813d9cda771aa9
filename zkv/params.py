"""
Bases derived by several processes, recorded for spec/ZkParams.tla.  A process is started as
`python -m zkv.params JOB OUT`; all start with the same state of the seedable generator.
"""
import json
import os
import random
import subprocess
import sys
import time

from . import tlc
from .ship import ENVS, ROOT, Real, realm
from .world import guarded


def seeds(rng, k):
    return [42, 0, 1, 7, 2 ** 32, 2 ** 64 + 5, 10 ** 40][:k] + [rng.choice((rng.randrange(10 ** 6), 10 ** 7 * rng.randrange(1, 99), rng.getrandbits(200)))]


def child(job):
    toy = job["profile"] not in Real.PROFILES
    R = realm(job["profile"])
    random.seed(job["random"])
    from petlib.ec import EcGroup
    from zksk import make_generators
    from zksk.consts import DEFAULT_GROUP
    from zksk.pairings import BilinearGroupPair
    from zksk.utils import get_random_point
    bp = R.bp if toy else BilinearGroupPair()
    out = []

    def describe(e, G, gname, pts):
        e.update(g=gname, pts=[p.export().hex() for p in pts], ingroup=True, identity=False, vecs=[], q=2)
        for p in pts:
            e["ingroup"] = e["ingroup"] and (G.check_point(p) if gname.startswith("ec") else type(p) is type(G.generator()) and p + G.infinite() == p)
            e["identity"] = e["identity"] or bool(p == G.infinite())
        return e

    def vec(p):
        return [int(c) for c in (p.v if hasattr(p, "v") else p.pt.v)]

    for kind, g, seed, n, form in job["calls"]:
        G = bp.G1 if g == "G1" else DEFAULT_GROUP if g is None else EcGroup(g)
        gname = "G1" if g == "G1" else "ec%d" % (DEFAULT_GROUP.nid() if g is None else g)
        e = {"ev": kind, "g": gname, "seed": str(seed), "n": n, "out": "ok", "pts": [], "ingroup": True, "identity": False, "vecs": [], "q": 2,
             "tag": "%s %s %s" % (kind, gname, job["tag"])}
        a = () if g is None else (G,)
        try:
            with guarded():
                if kind == "key":
                    from zksk.primitives.bbsplus import BBSPlusKeypair
                    pts = list(BBSPlusKeypair.generate(bp, n).pk.generators)
                    e.update(ev="family", seed="key %s %d" % (job["tag"], len(out)), n=len(pts))
                elif kind == "family":
                    pts = list(make_generators(n, *a) if form == "default" else make_generators(n, *a, seed=seed))
                elif form == "many":
                    pts = list(make_generators(n, *a, seed=None))
                else:
                    pts = [get_random_point(*a) for _ in range(n)]
                describe(e, G, gname, pts)
                if toy and n:
                    d = len(vec(G.generator()))
                    vs = [vec(p) for p in pts[:d - 3]] + [vec(G.generator())]
                    if d > 3:
                        e.update(vecs=vs, q=int(G.order()))
        except Exception as x:
            e["out"] = "E" + type(x).__name__
        out.append(e)
    return out


def run(u, work):
    rng = random.Random(u["seed"] * 1000003 + u.get("salt", 0))
    t0 = time.time()
    profile = u.get("profile", "big")
    groups = [None, 713, 415, 714, "G1"]
    ss = seeds(rng, 7)
    base = []
    for g in groups:
        base += [("family", g, 42, rng.choice((1, 3, 8)), "default"), ("family", g, 42, 5, "given"), ("family", g, 42, rng.choice((12, 20, 40)), "given")]
        for s in ss:
            base += [("family", g, s, rng.choice((0, 1, 2, 4, 6)), "given"), ("family", g, s, rng.choice((3, 5, 9)), "given")]
        base += [("drawn", g, "", rng.choice((1, 2, 5)), "many"), ("drawn", g, "", rng.choice((1, 3, 5)), "one")]
    base += [("key", "G1", "", n, "") for n in (1, 2, 5)]
    events = []
    for i in range(u.get("n", 5)):
        env = ENVS[i % len(ENVS)]
        calls = list(base)
        rng.shuffle(calls)
        calls = calls[:len(calls) * 4 // 5]
        if i < 2:
            calls.append(("drawn", 713, "", u.get("draws", 1500), "many"))
        calls.append(("drawn", 714, "", 3, "one"))
        job = {"profile": profile, "random": 5, "calls": calls, "tag": "process " + " ".join(list(env[0].values()) + env[1])}
        a, b = os.path.join(work, "p%d.job" % i), os.path.join(work, "p%d.out" % i)
        with open(a, "w") as f:
            json.dump(job, f)
        subprocess.run([sys.executable, "-B", "-W", "ignore"] + env[1] + ["-m", "zkv.params", a, b], env=dict(os.environ, **env[0]), cwd=ROOT, check=True,
                       timeout=600, stdout=subprocess.DEVNULL)
        with open(b) as f:
            events += json.load(f)
    t1 = time.time()
    path = os.path.join(work, "trace.json")
    with open(path, "w") as f:
        json.dump(events, f)
    r = tlc.check_trace(path, module="ZkParams", heap="3g")
    kinds, where = {}, []
    for e in events:
        kinds[e["ev"] + ":" + e["g"] + ":" + e["out"]] = kinds.get(e["ev"] + ":" + e["g"] + ":" + e["out"], 0) + 1
    for clause, ev, tag in sorted(r["bad"], key=lambda x: x[1])[:6]:
        e = dict(events[ev - 1])
        e["pts"] = e["pts"][:10]
        where.append({"clause": clause, "event": ev, "tag": tag, "scenario": ev, "events": [e]})
    small = [dict(e, pts=e["pts"][:5]) for e in events[:4]]
    return {"bad": r["bad"], "degen": 0, "events": len(events), "states": r["states"], "scenarios": len(events), "calls": len(events), "t_gen": 0,
            "t_drive": t1 - t0, "t_tlc": r["secs"], "kinds": kinds, "where": where, "sample": small}


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        job = json.load(f)
    if job["profile"] not in Real.PROFILES:
        realm(job["profile"])
    res = child(job)
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
