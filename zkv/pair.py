"""
Executes programs of point operations (generated by spec/ZkPair.tla) on the real pairing groups and
records what can be observed of every point, for ZkPair to judge.
"""
import copy
import gc
import json
import os
import random
import time

from . import tlc
from .world import guarded


class Machine(object):
    def __init__(self, rng):
        from zksk.pairings import BilinearGroupPair
        from petlib.bn import Bn
        from petlib.pack import encode, decode
        self.Bn, self.encode, self.decode = Bn, encode, decode
        self.rng = rng
        self.insts = [BilinearGroupPair(), BilinearGroupPair()]
        q = self.insts[0].G1.order()
        self.q = int(q)
        self.r, self.s = rng.randrange(2 ** 200, self.q), rng.randrange(2 ** 200, self.q)
        self.names = [b"h%d" % rng.randrange(10 ** 9), b"k%d" % rng.randrange(10 ** 9)]
        self.ncalls, self.error = 0, None

    def scal(self, k):
        v = k["a"] + k["b"] * self.r + k["c"] * self.s + k["e"] * self.q
        if not k["bn"] and abs(v) < 2 ** 31:
            return v
        return self.Bn.from_decimal(str(v))

    def group(self, g, inst):
        return self.insts[inst - 1].groups()[g - 1]

    def apply(self, o, regs):
        k = o["op"]
        R = lambda i: regs[i - 1]
        if k == "gen":
            return self.group(o["g"], o["inst"]).generator()
        if k == "inf":
            return self.group(o["g"], o["inst"]).infinite()
        if k == "hash":
            return self.insts[o["inst"] - 1].G1.hash_to_point(self.names[o["i"] - 1])
        if k == "add":
            return R(o["x"]) + R(o["y"])
        if k == "sub":
            return R(o["x"]) - R(o["y"])
        if k == "iadd":
            a = R(o["x"])
            a += R(o["y"])
            return a
        if k == "isub":
            a = R(o["x"])
            a -= R(o["y"])
            return a
        if k == "imul":
            a = R(o["x"])
            a *= self.scal(o["k"])
            return a
        if k == "lmul":
            return R(o["x"]) * self.scal(o["k"])
        if k == "rmul":
            return self.scal(o["k"]) * R(o["x"])
        if k in ("sum", "wsum"):
            pts = [R(i) for i in o["as"]]
            mk = {"list": list, "tuple": tuple, "gen": lambda x: (y for y in x)}[o["it"]]
            G = self.group(o["g"], o["inst"])
            return G.sum(mk(pts)) if k == "sum" else G.wsum(mk([self.scal(x) for x in o["ks"]]), mk(pts))
        if k == "pair":
            return R(o["x"]).pair(R(o["y"]))
        if k == "tpair":
            return (self.scal(o["k"]) * R(o["x"])).pair(R(o["y"]) * self.scal(o["k2"]))
        if k == "copy":
            return copy.copy(R(o["x"]))
        if k == "code":
            a = R(o["x"])
            how = self.rng.randrange(3)
            if how == 0:
                return self.decode(self.encode(a))
            if how == 1:
                return self.decode(self.encode([a, {"p": [a, 5]}, "t"]))[1]["p"][0]
            return self.decode(self.encode({"a": a}))["a"]
        if k == "series":
            x, y, what, res = R(o["x"]), R(o["y"]), o["what"], None
            G = self.group(3 if what in ("pl", "pr") else self.grp(x), 1)
            res = G.infinite()
            for c in [self.scal(c) for c in o["ks"]]:
                if what == "pl":
                    t = (x * c).pair(y)
                elif what == "pr":
                    t = y.pair(x * c)
                elif what == "code":
                    t = self.decode(self.encode(x * c))
                elif what == "mul":
                    t = 3 * (x * c)
                elif what == "sub":
                    t = x - c * x
                elif what == "wsum":
                    t = G.wsum([2], [c * x])
                else:
                    t = G.sum([c * x, x * c])
                res = res + t
            return res
        raise ValueError(k)

    def grp(self, p):
        found = [i for i in (1, 2, 3) if p.group == self.insts[0].groups()[i - 1]]
        return found[0] if len(found) == 1 and int(p.group.order()) == self.q else 0

    def run(self, prog):
        ev = [{"ev": "new"}]
        regs, grps = [], []
        for o in prog:
            self.ncalls += 1
            e = {"ev": "step", "o": o, "out": "ok", "key": "", "rep": "", "eq": [], "ne": [], "grp": 0}
            try:
                with guarded():
                    p = self.apply(o, regs)
                    e["key"], e["rep"], e["grp"] = p.export().hex(), repr(p), self.grp(p)
                    same = [i for i, (x, g) in enumerate(zip(regs, grps), 1) if g == e["grp"] and x is not None]
                    e["eq"] = [i for i in same if p == regs[i - 1]]
                    e["ne"] = [i for i in same if regs[i - 1] != p]
            except Exception as x:
                self.error = self.error or x
                p = None
                e.update(out="E", key="", rep="", eq=[], ne=[], grp=0)
            regs.append(p)
            grps.append(e["grp"])
            ev.append(e)
            if self.rng.random() < 0.2:
                gc.collect()
        keys, eqs = [], []
        for p in regs:
            try:
                keys.append(p.export().hex() if p is not None else "")
            except Exception:
                keys.append("error")
        for p, g in zip(regs, grps):
            row = []
            for x, h in zip(regs, grps):
                try:
                    row.append(1 if p is not None and x is not None and g == h and p == x else 0)
                except Exception:
                    row.append(2)
            eqs.append(row)
        ev.append({"ev": "end", "keys": keys, "eqs": eqs})
        return ev


def run(u, work):
    t0 = time.time()
    gen = os.path.join(work, "gen.json")
    salt = u["seed"] * 7919 % 1000003 + u.get("salt", 0)
    env = {"ZK_N": str(u["n"]), "ZK_L": str(u["L"]), "ZK_OUT": gen, "ZK_TRACE": "", "ZK_MODE": "gen"}
    code, text, _ = tlc.run("ZkPair", env=env, args=["-seed", str(salt)])
    if code != 0 or not os.path.exists(gen):
        raise tlc.TlcError("generation failed\n" + tlc.brief(text))
    with open(gen) as f:
        progs = json.load(f)
    t1 = time.time()
    rng = random.Random(salt)
    m = Machine(rng)
    events, starts = [], []
    for p in progs:
        if time.time() > t1 + u.get("budget", 300):
            break
        starts.append(len(events))
        events += m.run(p)
    t2 = time.time()
    path = os.path.join(work, "trace.json")
    with open(path, "w") as f:
        json.dump(events, f)
    env.update(ZK_MODE="check", ZK_TRACE=path)
    code, text, secs = tlc.run("ZkPair", env=env, heap="2g")
    res = tlc.results(text)
    if code != 0 or not res or res[-1]["last"] != res[-1]["len"] + 1:
        raise tlc.TlcError("validation failed\n" + tlc.brief(text))
    bad = res[-1]["bad"]
    kinds = {}
    for e in events:
        if e["ev"] == "step":
            k = e["o"]["op"] + ":" + e["out"]
            kinds[k] = kinds.get(k, 0) + 1
    where = []
    for clause, ev, tag in sorted(bad, key=lambda b: b[1])[:6]:
        i = max([j for j, s in enumerate(starts) if s <= ev - 1] or [0])
        where.append({"clause": clause, "event": ev, "tag": tag, "scenario": i, "events": events[starts[i]:ev]})
    return {"bad": bad, "degen": 0, "events": len(events), "states": tlc.counts(text)[1], "scenarios": len(starts), "calls": m.ncalls,
            "t_gen": t1 - t0, "t_drive": t2 - t1, "t_tlc": secs, "kinds": kinds, "where": where, "sample": events[1:6]}
