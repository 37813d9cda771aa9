"""
Replays histories of spec/Lifecycle.tla on statements of several kinds, and validates the recorded
trace.  The histories are all those up to a length, or long random ones.
"""
import json
import os
import random
import time

from . import tlc
from .drivers import with_fields, scale_all, flip


def templates(R):
    """Statements p with their secrets' values: name -> (tree, values, may be marked)."""
    q, d = R.q(1), R.d(1)
    B = [(1, [1 if j == i % d else (i + 1 if d == 1 else 0) for j in range(d)]) for i in range(6)]

    def lin(*ts):
        v = [0] * d
        for k, b in ts:
            v = [(x + k * y) % q for x, y in zip(v, b[1])]
        return (1, v)

    def dl(*ts, off=0):
        vals = {"x": 5, "y": 7, "z": 11}
        lhs = lin(*[(vals[n], B[b]) for n, b in ts])
        if off:
            lhs = (1, [(x + off) % q for x in lhs[1]])
        return {"k": "dl", "lhs": lhs, "b": [B[b] for _, b in ts], "x": [n for n, _ in ts], "how": "sum"}

    def neq(x="x", bind=True):
        vals = {"x": 5, "y": 7, "z": 11}
        return {"k": "neq", "h0": B[0], "H0": lin((vals[x], B[0])), "h1": B[1], "H1": lin((vals[x] + 1, B[1])), "x": x, "bind": bind}
    pw = {"k": "pow", "com": lin((2, B[1]), (9, B[2])), "g": B[1], "h": B[2], "n": 2, "x": "p", "r": "s"}
    rg = {"k": "rng", "com": lin((2, B[1]), (9, B[2])), "g": B[1], "h": B[2], "a": 1, "b": 4, "x": "p", "r": "s"}
    pre = lambda k, x: {"k": k, "cls": "Pre", "g": B[0], "h": B[3], "x": x, "val": "ok", "sim": True}
    AND = lambda *s: {"k": "and", "s": list(s), "how": "ctor"}
    OR = lambda *s: {"k": "or", "s": list(s), "how": "ctor"}
    plain = lambda t: {"k": "xplain", "cls": "Plain", "val": "ok", "inner": t}
    return {
        "dl": (dl(("x", 0), ("y", 1)), True),
        "and": (AND(dl(("x", 0), ("y", 1)), dl(("x", 2))), True),
        "or": (OR(dl(("x", 0)), dl(("y", 1), off=3)), True),
        "neq": (neq(), False),
        "pow": (pw, False),
        "rng": (rg, False),
        "xpt": (pre("xpt", "x"), False),
        "xtup": (pre("xtup", "x"), False),
        "xdat": ({"k": "xdat", "cls": "Dat", "g": B[0], "h": B[3], "P": lin((5, B[0])), "x": "x", "form": "dict", "val": "ok", "sim": True}, False),
        "xplain": (plain(AND(dl(("x", 0)), dl(("x", 1), ("y", 2)))), False),
        "andneq": (AND(neq("x"), dl(("x", 2), ("y", 3))), True),
        "orneq": (OR(neq("x", False), pre("xpt", "y")), True),
        "deep": (OR(AND(neq("x"), OR(dl(("y", 1)), pre("xpt", "z"))), AND(dl(("z", 0)), dl(("z", 1), off=1))), True),
    }


VALS = {"x": 5, "y": 7, "z": 11, "p": 2, "s": 9}


def secrets(t):
    from .drivers import secrets_of
    return secrets_of(t)


class Replay(object):
    def __init__(self, w, tree, rng, mode):
        self.w, self.tree, self.rng, self.mode = w, tree, rng, mode
        R = w.realm
        d = R.d(1)
        w.new(mode)
        names = secrets(tree)
        self.vals = {n: VALS[n] for n in names}
        self.vals["t"] = 13
        ctor = dict(self.vals) if mode == "ctor" else {n: v for n, v in self.vals.items() if n in ("p", "s")}
        self.dict = None if mode == "ctor" else {n: v for n, v in self.vals.items() if n not in ("p", "s")}
        self.trees = {"p": tree, "r": {"k": "dl", "lhs": (1, [(14 if j == 0 else 0) % R.q(1) for j in range(d)]),
                                       "b": [(1, [1] + [0] * (d - 1))], "x": ["t"], "how": "sum"}}
        w.mk("p", tree, "eP", ctor)
        w.mk("r", self.trees["r"], "eP", {n: v for n, v in ctor.items()})
        self.last = {}
        self.open = {}
        self.dicted = set()
        self.assigned = set()
        self.n = 0

    def counterpart(self, o, kind="v"):
        v = kind + o
        if v not in self.w.objs:
            self.w.mk(v, self.trees[o], "e" + v, {})
        return v

    def d(self, o):
        if self.dict is not None:
            self.dicted.add(o)
        return self.dict

    def prove(self, o):
        w = self.w
        n = w.prove(o, self.d(o), "m%d" % self.n)
        msg = "m%d" % self.n
        if n is not None:
            self.assigned.add(o)
            v = self.counterpart(o)
            w.verify(v, n, msg)
            w.verify(o, n, msg)
            if o in self.last:
                w.verify(v, *self.last[o])
            self.last[o] = (n, msg)

    def sim(self, o):
        w = self.w
        t = w.sim(o, None)
        if t is not None:
            w.simchk(o, t)
            w.simchk(self.counterpart(o), t)

    def start(self, o):
        w = self.w
        got = w.pcom(o, "p" + o, self.d(o))
        if got is None:
            return
        self.assigned.add(o)
        c = w.vchal(self.counterpart(o, "w"), "v" + o, *got)
        if c is not None:
            self.open[o] = c

    def finish(self, o):
        c = self.open.pop(o, None)
        if c is None:
            return
        r = self.w.presp("p" + o, c)
        if r is not None:
            self.w.vver("v" + o, r)

    def bad(self, o, kind):
        w = self.w
        if o not in self.last:
            # a proof made elsewhere
            w.mk("f" + o, self.trees[o], "ef" + o, dict(self.vals))
            n = w.prove("f" + o, None, "other")
            if n is None:
                return
            self.last[o] = (n, "other")
        n, msg = self.last[o]
        if kind == "badverify":
            bad = with_fields(n, responses=scale_all(n.responses, lambda x: x + 1))
        else:
            bad = self.rng.choice([with_fields(n, responses=None), with_fields(n, precommitment="junk"),
                                   with_fields(n, responses=[]), with_fields(n, precommitment=None, responses=None)])
        w.verify(o, bad, msg)
        w.verify(self.counterpart(o), bad, msg)
        if kind == "badverify":
            w.verify(o, n, msg)

    def op(self, op, o):
        w = self.w
        self.n += 1
        if op == "prove":
            self.prove(o)
        elif op == "sim":
            self.sim(o)
        elif op == "open":
            self.start(o)
        elif op == "finish":
            self.finish(o)
        elif op == "abort":
            self.open.pop(o, None)
            w.sess.pop("p" + o, None)
            w.sess.pop("v" + o, None)
        elif op in ("badverify", "malformed"):
            self.bad(o, op)
        elif op == "missing":
            if self.mode == "ctor":
                w.prove(self.counterpart(o), None, "x")
                w.prove(self.counterpart(o, "w") if o not in self.open else self.counterpart(o), None, "x")
            elif not (self.dicted - {o}) and self.dicted <= self.assigned:
                # whether values passed to a call that was refused are kept is not specified
                w.prove(o, None, "x")
        elif op == "wronghash":
            if o not in self.last:
                self.bad(o, "badverify")
            if o in self.last:
                n, _ = self.last[o]
                w.vchal(o, "x", n.precommitment, (flip(n.stmt_hash, self.rng), None))
                w.vchal(self.counterpart(o), "x", n.precommitment, (flip(n.stmt_hash, self.rng), None))
                w.sess.pop("x", None)
        elif op == "compose":
            via = "op" if self.n % 2 else "ctor"
            k = "or" if o == "O" else "and"
            from .special import compose
            self.last.pop(o, None)
            w.comp(o, k, ["p", "r"], via=via)
            self.trees[o] = compose(self.trees, k, ["p", "r"], via)
        elif op in ("mark", "unmark"):
            if "." in o:
                # O.i: a branch of the disjunction made of p and r
                i = int(o[2:])
                nb = len(self.trees["O"]["s"])
                if i == 2:
                    w.mark("O", "r.%d" % nb, op == "mark")
                else:
                    for j in range(1, nb):
                        w.mark("O", "r.%d" % j, op == "mark")
            else:
                w.mark(o, "r", op == "mark")

    def epilogue(self):
        for o in sorted(self.open):
            self.finish(o)
        for o in [x for x in ("p", "O", "A") if x in self.w.objs]:
            n = self.w.prove(o, self.d(o), "end")
            if n is not None:
                self.w.verify(self.counterpart(o, "z"), n, "end")
        self.sim("p")


def run(u, work):
    from .world import Toy, World
    t0 = time.time()
    rng = random.Random(u["seed"] * 77 + u.get("salt", 0))
    w = World(Toy(u.get("profile", "big")))
    T = templates(w.realm)
    out = os.path.join(work, "h.json")
    markable = T[u["template"]][1]
    args = () if u.get("mode", "all") == "all" else ("-simulate", "num=%d" % u["num"], "-depth", str(u["L"] + 3),
                                                     "-seed", str(u["seed"] * 31 + u.get("salt", 0)))
    code, text, secs = tlc.run("Lifecycle", env={"ZK_L": str(u["L"]), "ZK_OUT": out, "ZK_MARKP": "yes" if markable else "no",
                                                "ZK_REENTRANT": "yes" if u["template"] in ("dl", "and", "or") else "no"}, args=args)
    if code != 0:
        raise tlc.TlcError(tlc.brief(text))
    hs = json.load(open(out))
    if u.get("sample") and len(hs) > u["sample"]:
        hs = rng.sample(hs, u["sample"])
    if u.get("shards"):
        hs = hs[u["shard"]::u["shards"]]
    t1 = time.time()
    starts = []
    for i, h in enumerate(hs):
        if time.time() - t1 > u.get("budget", 300):
            break
        starts.append(len(w.events))
        r = Replay(w, T[u["template"]][0], rng, ["ctor", "dict"][(i + u["seed"]) % 2])
        for op, o in h:
            r.op(op, o)
        r.epilogue()
    t2 = time.time()
    from .unit import validate
    return validate(w, starts, work, u, t1 - t0, t2 - t1)
