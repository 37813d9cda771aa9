"""Turns generated scenarios (spec/ZkGen.tla) into statements over a realm's groups."""
import random

from .world import unit

MESSAGES = ["", "a", "A", "a ", " a", "a\n", "\u00e9", "e\u0301", "x" * 5000, "x" * 4999 + "y", "message", "z" * 70000, "m" * 300000, "a\x00"]


class Concrete(object):
    def __init__(self, realm, rec):
        self.R = realm
        self.rec = rec
        self.rng = random.Random(rec["rnd"])
        self.val = {v["x"]: v["v"] for v in rec["vals"]}
        self.big = {}
        for v in rec["vals"]:
            q = realm.order(3) if v["x"].startswith("z") else realm.order(1)
            rep = {0: 0, 1: 1, -1: -1, 2: 2 ** 100}[v["rep"]]
            self.big[v["x"]] = v["v"] + rep * q
        self.tree = self.conc(rec["tree"])
        self.msg = MESSAGES[rec["msg"] % len(MESSAGES)]

    def base(self, g, b):
        """Base number b of group g."""
        d, q = self.R.d(g), self.R.q(g)
        if d == 1:
            return (g, [1 + (b * b + b) % (q - 1) if q > 2 else 1])
        return (g, unit(d, b % d))

    def lin(self, terms, g):
        """Linear combination of (integer, point)."""
        q = self.R.q(g)
        v = [0] * self.R.d(g)
        for k, p in terms:
            assert p[0] == g
            v = [(a + k * c) % q for a, c in zip(v, p[1])]
        return (g, v)

    def off(self, t, p):
        if not t.get("off"):
            return p
        d = self.R.d(p[0])
        # a change along a coordinate that the bases span, or do not
        i = t["off"] % d
        v = list(p[1])
        v[i] = (v[i] + t["off"]) % self.R.q(p[0])
        return (p[0], v)

    def conc(self, t):
        k = t["k"]
        val = self.val
        if k == "dl":
            g = t["g"]
            b = [self.base(x.get("g") or g, x["b"]) for x in t["t"]]
            names = [x["x"] for x in t["t"]]
            g = b[0][0]
            lhs = self.lin([(self.big[n], p) for n, p in zip(names, b) if p[0] == g], g)
            return {"k": k, "b": b, "x": names, "lhs": self.off(t, lhs), "how": t.get("how", "sum")}
        if k in ("and", "or"):
            return {"k": k, "s": [self.conc(s) for s in t["s"]], "how": t.get("how", "ctor")}
        if k == "neq":
            g = t["g"]
            h0, h1 = self.base(g, t["b0"]), self.base(g, t["b1"])
            x = val[t["x"]]
            if t["zero"] and x % self.R.q(g):
                H1 = self.lin([], g)
            elif t.get("equal"):
                H1 = self.lin([(x, h1)], g)
            else:
                H1 = self.lin([(x + 1 + self.rng.randrange(max(1, self.R.q(g) - 1)), h1)], g)
            return {"k": k, "h0": h0, "H0": self.off(t, self.lin([(x, h0)], g)), "h1": h1, "H1": H1,
                    "x": t["x"], "bind": t["bind"]}
        if k in ("pow", "rng"):
            g = t["g"]
            G, H = self.base(g, 1), self.base(g, 2)
            com = self.off(t, self.lin([(val[t["x"]], G), (val[t["r"]], H)], g))
            r = {"k": k, "com": com, "g": G, "h": H, "x": t["x"], "r": t["r"]}
            r.update({"n": t["n"]} if k == "pow" else {"a": t["a"], "b": t["b"]})
            return r
        if k == "xplain":
            return {"k": k, "cls": t["cls"], "val": t["val"], "inner": self.conc(t["inner"])}
        if k in ("xpt", "xtup"):
            return {"k": k, "cls": t["cls"], "g": self.base(t["g"], t["b0"]), "h": self.base(t["g"], t["b1"]),
                    "x": t["x"], "val": t["val"], "sim": t["sim"]}
        if k == "xdat":
            g = self.base(t["g"], t["b0"])
            return {"k": k, "cls": t["cls"], "g": g, "h": self.base(t["g"], t["b1"]), "x": t["x"], "form": t["form"],
                    "P": self.off(t, self.lin([(val[t["x"]], g)], t["g"])), "val": t["val"], "sim": t["sim"]}
        raise ValueError(k)

    def supply(self):
        """(values given at construction, values given to the call or None)"""
        ctor = set(self.rec["ctoronly"])
        if not self.rec["dict"]:
            return dict(self.big), None
        if self.rec["rnd"] % 10 < 3:
            # some of the others are known from the start, too
            rng = random.Random(self.rec["rnd"])
            ctor |= {n for n in sorted(self.big) if rng.random() < 0.5}
        return ({n: v for n, v in self.big.items() if n in ctor},
                {n: v for n, v in self.big.items() if n not in ctor})


def make(w, rec, prover="p", verifier="v", tag=""):
    """The two sides of a generated scenario; returns the concretization and the dictionary."""
    c = Concrete(w.realm, rec)
    ctor, d = c.supply()
    pre = "named" if rec["named"] else "e"
    w.mk(prover, c.tree, pre + "P", ctor, tag=tag)
    w.mk(verifier, c.tree, pre + "V", {}, tag=tag)
    c.dict = d
    return c
