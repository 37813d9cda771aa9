"""
Replays the interleavings of spec/Sessions.tla on statements of several kinds, and validates the
recorded trace.
"""
import json
import os
import random
import time

from . import tlc
from .drivers import flip
from .history import VALS, secrets, templates

SEVERAL = ("dl", "and", "or")      # statements without primitives: an object may have several sessions


class Replay(object):
    def __init__(self, w, name, tree, rng):
        self.w, self.tree, self.rng = w, tree, rng
        self.several = name in SEVERAL
        self.vals = {n: VALS[n] for n in secrets(tree)}
        w.new("sessions")
        R = w.realm
        other = {"k": "dl", "lhs": (1, [13 if j == 0 else 0 for j in range(R.d(1))]),
                 "b": [(1, [1] + [0] * (R.d(1) - 1))], "x": ["t"], "how": "sum"}
        w.mk("r", other, "eR", {"t": 13})
        self.other = w.pcom("r", "pr")
        w.mk("p1", tree, "eP", self.vals)
        w.mk("v1", tree, "eV1", {})
        w.mk("v2", tree, "eV2", {})
        if not self.several:
            w.mk("p2", tree, "eQ", self.vals)
        self.same = self.several and rng.random() < 0.3       # one statement object for both verifiers
        self.coms, self.held, self.resp = {}, {}, []

    def verifier(self, v):
        return "v1" if self.same or v == 1 else "v2"

    def op(self, op, a, b):
        w = self.w
        if op == "commit":
            self.coms[a] = w.pcom("p%d" % a if not self.several else "p1", "c%d" % a)
        elif op == "challenge":
            if self.coms.get(b) is None:
                return
            s = "s%d" % a
            c = w.vchal(self.verifier(a), s, self.coms[b][0], self.coms[b][1], reuse=a in self.held)
            if c is not None and s in w.sess:
                self.held[a] = c
        elif op == "refused":
            if a not in self.held or self.coms.get(b) is None:
                return
            pre, (h, com) = self.coms[b]
            foreign = self.other[1] if self.other else (b"", com)
            bad = self.rng.choice([(flip(h, self.rng), com), (foreign[0], com), foreign, (h[:31], com)])
            w.vchal(self.verifier(a), "s%d" % a, pre, bad, tag="refused", skip_pre=True, reuse=True)
        elif op == "respond":
            r = None
            if b in self.held and self.coms.get(a) is not None:
                r = w.presp("c%d" % a, self.held[b])
            self.resp.append((a, r))
        elif op == "verify":
            r = self.resp[b - 1][1]
            if r is not None and a in self.held:
                w.vver("s%d" % a, r)
        elif op == "early":
            k, r = self.resp[a - 1]
            o = "v1"
            if not self.several:
                o = "e%d" % len(w.objs)
                w.mk(o, self.tree, "e" + o, {})
            w.vearly(o, "early", self.coms[k][0], r, tag="early")


def run(u, work):
    from .world import Toy, World
    t0 = time.time()
    rng = random.Random(u["seed"] * 79 + u.get("salt", 0))
    w = World(Toy(u.get("profile", "big")))
    tree = templates(w.realm)[u["template"]][0]
    out = os.path.join(work, "s.json")
    args = () if u.get("mode", "all") == "all" else ("-simulate", "num=%d" % u["num"], "-depth", str(u["L"] + 3),
                                                     "-seed", str(u["seed"] * 37 + u.get("salt", 0)))
    code, text, secs = tlc.run("Sessions", env={"ZK_L": str(u["L"]), "ZK_OUT": out,
                                                "ZK_ONCE": "no" if u["template"] in SEVERAL else "yes"}, args=args)
    if code != 0:
        raise tlc.TlcError(tlc.brief(text))
    with open(out) as f:
        hs = json.load(f)
    if u.get("sample") and len(hs) > u["sample"]:
        hs = rng.sample(hs, u["sample"])
    t1 = time.time()
    starts = []
    for h in hs:
        if time.time() - t1 > u.get("budget", 300):
            break
        starts.append(len(w.events))
        r = Replay(w, u["template"], tree, rng)
        for x in h:
            r.op(*x)
    t2 = time.time()
    from .unit import validate
    return validate(w, starts, work, u, t1 - t0, t2 - t1)
