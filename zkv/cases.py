"""
Replays the cases of spec/Neq.tla and spec/Range.tla on the real code: the honest prover on every
case, alone and in compositions, and provers that try to prove false ones.
"""
import json
import os
import random
import time

from . import tlc
from .evil import attack, bn, C
from .world import unit


class Cases(object):
    def __init__(self, w, rng):
        self.w, self.rng = w, rng
        self.R = w.realm
        self.q = self.R.q(1)
        self.d = self.R.d(1)

    def base(self, i):
        d = self.d
        return (1, [1 if j == i % d else 0 for j in range(d)]) if d > 1 else (1, [i + 1])

    def lin(self, *ts):
        v = [0] * self.d
        for k, p in ts:
            v = [(a + k * b) % self.q for a, b in zip(v, p[1])]
        return (1, v)

    def exact(self, clause, truth, run):
        """The verdict is exactly the truth; what happens with probability 1/q does not always happen."""
        got = None
        for _ in range(3 if self.q > 1000 else 25):
            got = run()
            if (got == "T") == truth:
                break
        self.w.obs(clause, got == "T", truth, tag="")

    def context(self, tree, vals, kind):
        """The statement alone, or next to others."""
        B = [self.base(i + 4) for i in range(3)]
        x = tree["x"]
        if kind == "and":
            return {"k": "and", "s": [tree, {"k": "dl", "lhs": self.lin((vals[x], B[0])), "b": [B[0]], "x": [x], "how": "sum"}], "how": "op"}
        if kind == "and2":
            return {"k": "and", "s": [{"k": "dl", "lhs": self.lin((vals[x], B[0]), (5, B[1])), "b": [B[0], B[1]], "x": [x, "u"],
                                       "how": "sum"}, tree], "how": "ctor"}
        if kind == "or":
            # the other branch cannot be proved: its secret is not known
            return {"k": "or", "s": [{"k": "dl", "lhs": self.lin((3, B[1])), "b": [B[1]], "x": ["u"], "how": "sum"}, tree], "how": "op"}
        return tree

    def honest(self, clause, tree, vals, kind, truth, interactive):
        w = self.w
        w.new(clause)
        t = self.context(tree, vals, kind)
        ctor = dict(vals)
        if kind == "and2":
            ctor["u"] = 5
        w.mk("p", t, "eP", ctor)
        w.mk("v", t, "eV", {})

        def run():
            if interactive:
                return w.session("p", "v", None)
            n = w.prove("p", None, "m")
            return "E" if n is None else w.verify("v", n, "m")
        self.exact(clause, truth, run)
        return t

    def attacks(self, tree, wit, cheats, key):
        w = self.w
        w.new("attack")
        w.mk("p", tree, "eP", {})
        w.mk("v", tree, "eV", {})
        for c in cheats:
            attack(w, "v", "p", tree, wit, self.rng, None, "shared", cheat={key: c}, tag=c)

    # ---------------------------------------------------------------- inequality
    def neq(self, c, i):
        B0, B1 = (self.base(0), self.base(1))
        if i % 4 == 3:
            B1 = B0
        h0, h1 = self.lin((c["h0"], B0)), self.lin((c["h1"], B1))
        tree = {"k": "neq", "h0": h0, "H0": self.lin((c["H0"], B0)), "h1": h1, "H1": self.lin((c["H1"], B1)),
                "x": "x", "bind": c["bind"]}
        if i % 7 == 6 and self.d > 1:
            # a second pair that is not even on one line
            tree["H1"] = self.lin((1, tree["H1"]), (1 + i % 5, self.base(2)))
            truth = c["H0"] * 1 % self.q == c["x"] * c["h0"] % self.q
        else:
            k0 = c["H0"] % self.q == c["x"] * c["h0"] % self.q
            truth = k0 and c["H1"] % self.q != c["x"] * c["h1"] % self.q
        x = c["x"] + [0, self.q, -self.q, 0][i % 4]
        kind = ["alone", "and", "or", "alone", "and2"][i % 5]
        if kind in ("and", "and2") and not any(h1[1]):
            kind = "alone"
        t = self.honest("neq.exact", tree, {"x": x}, kind, truth, i % 3 == 1)
        if i % 2 == 0:
            kind = kind if kind in ("and", "or") else "alone"
            t = self.context(tree, {"x": x}, kind)
            self.attacks(t, lambda n, p, j: x if n == "x" else 3, ["identity", "other", "split", "honest"], "neq")

    # --------------------------------------------------------------------- range
    def rng_(self, c, i):
        G, H = self.base(1), self.base(2)
        r = [9, 0, self.q - 1, self.rng.randrange(self.q)][i % 4]
        x = c["x"]
        com = self.lin((x, G), (r, H))
        tree = {"k": "rng", "com": com, "g": G, "h": H, "a": c["a"], "b": c["b"], "x": "x", "r": "r"}
        kind = ["alone", "and", "alone", "and2", "or"][i % 5]
        t = self.honest("range.exact", tree, {"x": x, "r": r}, kind, c["truth"], i % 3 == 1)
        if not c["truth"]:
            self.attacks(tree, lambda n, p, j: {"x": x, "r": r}[n], self.rng.sample(["more", "long", "fewer", "wrap", "norand", "digit"], 3), "pow")
        elif i % 3 == 0:
            # the right value, but another commitment
            wrong = dict(tree, com=self.lin((1, com), (self.rng.choice([1, -1, 2]), self.rng.choice([G, H]))))
            self.attacks(wrong, lambda n, p, j: {"x": x, "r": r}[n], ["honest", "norand", "digit"], "pow")
        if i % 4 == 0:
            self.rangeonly(c, i)

    def rangeonly(self, c, i):
        w = self.w
        from zksk import Secret
        from zksk.primitives.rangeproof import RangeOnlyStmt

        def run():
            def go():
                s = Secret(value=w.num(c["x"]))
                st = RangeOnlyStmt(c["a"], c["b"], s)
                return st.verify(st.prove())
            out, v = w.call(go)
            return "T" if out == "ok" and v is True else "F"
        self.exact("range.only", c["truth"], run)

    def pow(self, n, x, i):
        G, H = self.base(1), self.base(2)
        r = [9, 0, self.q - 1, self.rng.randrange(self.q)][i % 4]
        com = self.lin((x, G), (r, H))
        tree = {"k": "pow", "com": com, "g": G, "h": H, "n": n, "x": "x", "r": "r"}
        truth = 0 <= x < 2 ** n
        kind = ["alone", "and", "or", "alone", "and2"][i % 5]
        self.honest("range.exact", tree, {"x": x, "r": r}, kind, truth, i % 3 == 1)
        if not truth:
            self.attacks(tree, lambda m, p, j: {"x": x, "r": r}[m], ["more", "long", "fewer", "wrap", "norand", "digit"], "pow")
        else:
            wrong = dict(tree, com=self.lin((1, com), (self.rng.choice([1, -1, 2]), self.rng.choice([G, H]))))
            self.attacks(wrong, lambda m, p, j: {"x": x, "r": r}[m], ["honest", "norand", "digit"], "pow")


def run(u, work):
    from .world import Toy, World
    t0 = time.time()
    rng = random.Random(u["seed"] * 77 + u.get("salt", 0))
    w = World(Toy(u.get("profile", "big")))
    table = u["table"]
    out = os.path.join(work, "c.json")
    if table == "pow":
        N = u.get("N", 5)
        cases = [(n, x) for n in range(1, N + 1) for x in list(range(-2, 2 ** n + 3)) + [2 ** (n + 1) - 1, 2 ** (n + 1)]]
        cases += [(n, x) for n in (8, 10, 11) for x in (0, 1, 2 ** n - 1, 2 ** n, 2 ** n + 1, -1, 2 ** (n - 1))]
    else:
        mod, env = {"neq": ("Neq", {"ZK_Q": str(u.get("q", 5))}), "rng": ("Range", {"ZK_Q": "10007", "ZK_W": str(u.get("W", 8))})}[table]
        code, text, _ = tlc.run(mod, cfg=mod + "Cases", env=dict(env, ZK_OUT=out))
        if code != 0:
            raise tlc.TlcError(tlc.brief(text))
        cases = json.load(open(out))
    rng.shuffle(cases)
    if u.get("shards"):
        cases = cases[u.get("shard", 0)::u["shards"]]
    if u.get("sample"):
        # true and false ones
        if table == "neq":
            a = [c for c in cases if c["truth"]]
            b = [c for c in cases if not c["truth"]]
            near = [c for c in b if c["H0"] == c["x"] * c["h0"] % u.get("q", 5)]
            k = u["sample"] // 3
            cases = a[:k] + near[:k] + b[:k]
        else:
            cases = cases[:u["sample"]]
    t1 = time.time()
    cs = Cases(w, rng)
    starts = []
    for i, c in enumerate(cases):
        if time.time() - t1 > u.get("budget", 300):
            break
        starts.append(len(w.events))
        if table == "neq":
            cs.neq(c, i + u["seed"])
        elif table == "rng":
            cs.rng_(c, i + u["seed"])
        else:
            cs.pow(c[0], c[1], i + u["seed"])
    t2 = time.time()
    from .unit import validate
    return validate(w, starts, work, u, t1 - t0, t2 - t1)
