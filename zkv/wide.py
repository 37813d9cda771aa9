"""
Statements about large numbers, on real groups and on transparent ones of a large order: the honest
prover and malicious ones against the real verifier.  The verdicts are judged by spec/ZkWide.tla.
"""
import json
import os
import random
import time

from . import tlc
from .world import World, guarded

W = 48
SIZES = [8, 15, 16, 24, 31, 32, 33, 40, 48, 52, 53, 54, 62, 63, 64, 65, 80, 96, 100]
LARGE = [127, 128, 129, 160]


def lim(x):
    return list((x % 2 ** (8 * W)).to_bytes(W, "little"))


class Quiet(World):
    """A world that remembers verdicts only."""

    def emit(self, ev, **kw):
        kw["ev"] = ev
        self.events.append({k: kw.get(k) for k in ("ev", "out", "tag")})
        return kw

    def p(self, x):
        return {"t": "N"}


class Wide(object):
    def __init__(self, w, rng):
        self.w, self.R, self.rng = w, w.realm, rng
        self.out = []
        self.n = 0

    def base(self, i, g=1):
        return (g, [1 if j == i % 8 else 0 for j in range(self.R.d(g))])

    def lin(self, *ts, g=1):
        v = [0] * self.R.d(g)
        for k, b in ts:
            v = [(a + k * c) % self.R.q(g) for a, c in zip(v, b[1])]
        return (g, v)

    # ------------------------------------------------------------- numbers
    def amount(self, top=None):
        """Nonzero differences that a careless comparison may miss."""
        q = self.R.q(1)
        r = self.rng
        top = top or q.bit_length() - 2
        return r.choice([lambda: 1, lambda: -1, lambda: 2 ** r.choice([8, 16, 31, 32, 52, 53, 63, 64, 100, min(127, top), min(128, top), top - 1, top]),
                         lambda: -2 ** r.choice([31, 32, 63, 64, 100, min(127, top), top]), lambda: 2 ** r.randrange(top),
                         lambda: r.randrange(1, 2 ** 16) * 2 ** r.randrange(top - 16), lambda: r.randrange(1, 2 ** top)])()

    def number(self):
        q = self.R.q(1)
        r = self.rng
        return r.choice([lambda: 0, lambda: 1, lambda: q - 1, lambda: q - 2, lambda: q // 2, lambda: 2 ** r.choice([8, 31, 32, 53, 63, 64, 100, 128, 200]),
                         lambda: 2 ** r.choice([31, 32, 64, 128]) - 1, lambda: r.randrange(q), lambda: r.randrange(q), lambda: r.randrange(2 ** 64)])()

    def mod(self, d, q):
        return {"q": lim(q), "k": lim(d // q), "r": lim(d % q)}

    # ------------------------------------------------------------- verdicts
    def last(self, at):
        """The verdicts recorded since."""
        return [e for e in self.w.events[at:] if e["ev"] in ("verify", "vver")]

    def honest(self, tree, vals, how):
        w = self.w
        self.n += 1
        p, v = "p%d" % self.n, "v%d" % self.n
        at = len(w.events)
        if how == "dict":
            w.mk(p, tree, p, {})
        else:
            w.mk(p, tree, p, vals)
        w.mk(v, tree, v, {})
        out = "E"
        if p in w.objs and v in w.objs:
            if how == "session":
                out = w.session(p, v, None)
            else:
                n = w.prove(p, dict(vals) if how == "dict" else None, "m")
                if n is not None:
                    out = w.verify(v, n, "m")
        self.forget(p, v)
        return {"how": how, "out": out if out in ("T", "F") else "E"}

    def forget(self, *names):
        for n in names:
            self.w.objs.pop(n, None)
            self.w.envs.pop(n, None)

    def attacks(self, tree, wit, cheats, looks=(None,), nonces="shared"):
        from .evil import attack
        w = self.w
        self.n += 1
        p, v = "p%d" % self.n, "v%d" % self.n
        w.mk(p, tree, p, {})
        w.mk(v, tree, v, {})
        out = []
        if p not in w.objs or v not in w.objs:
            return out
        for c in cheats:
            for look in looks:
                at = len(w.events)
                attack(w, v, p, tree, wit, self.rng, None, nonces, cheat=c, tag="", look=look, modes=(self.rng.choice(["fs", "live"]),))
                out += [{"how": "%s %s" % (c, look), "out": e["out"]} for e in self.last(at)]
        self.forget(p, v)
        return out

    def add(self, kind, outs, cheats=(), **kw):
        self.out.append(dict({"kind": kind, "outs": list(outs), "cheats": list(cheats)},
                             **{k: lim(v) if isinstance(v, int) and k != "n" else v for k, v in kw.items()}))

    def context(self, tree, vals, kind):
        """The statement alone, or next to others about the same x."""
        B = [self.base(4), self.base(7)]
        x = tree["x"][0] if tree["k"] == "dl" else tree["x"]
        if kind == "and":
            return {"k": "and", "s": [tree, {"k": "dl", "lhs": self.lin((vals[x], B[0])), "b": [B[0]], "x": [x], "how": "sum"}], "how": "op"}
        if kind == "or":
            return {"k": "or", "s": [{"k": "dl", "lhs": self.lin((3, B[1])), "b": [B[1]], "x": ["u"], "how": "sum"}, tree], "how": "op"}
        return tree

    # ---------------------------------------------------------------- kinds
    def range(self):
        r, q = self.rng, self.R.q(1)
        k = r.choice(SIZES + (LARGE if self.R.profile not in ("bp", "k1") and r.random() < 0.1 else []))
        size = 2 ** k + r.choice([-1, -1, 0, 0, 1, 1, 2, r.randrange(1, 2 ** (k - 1))])
        n = (size - 1).bit_length()
        a = r.choice([0, 0, 1, -5, 2 ** 31 - 1, 2 ** 64 + 3, -2 ** 70, r.randrange(2 ** 80)])
        d = r.choice([0, 1, size - 1, size - 1, size // 2, -1, -1, size, size, size + 1, 2 ** k, 2 ** k - 1, 2 ** n - 1, 2 ** n, 2 * size, -size,
                      r.randrange(size), -2 ** n])
        x, b = a + d, a + size
        G, H = self.base(1), self.base(2)
        rd = r.choice([0, q - 1, r.randrange(q), r.randrange(q)])
        tree = {"k": "rng", "com": self.lin((x, G), (rd, H)), "g": G, "h": H, "a": a, "b": b, "x": "x", "r": "r"}
        vals = {"x": x, "r": rd}
        how = r.choice(["prove", "prove", "session"])
        outs = [self.honest(self.context(tree, vals, r.choice(["", "", "and", "or"]) if a >= 0 else ""), vals, how)]
        if r.random() < 0.3 and k <= 64:
            outs.append(self.rangeonly(a, b, x))
        cheats = []
        if not 0 <= d < size:
            cheats = self.attacks(tree, lambda m, p, j: vals[m], [{"pow": c} for c in r.sample(["more", "long", "wrap", "norand", "digit"], 2)])
        self.add("range", outs, cheats, a=a, b=b, x=x)

    def rangeonly(self, a, b, x):
        w = self.w
        from zksk import Secret
        from zksk.primitives.rangeproof import RangeOnlyStmt

        def go():
            st = RangeOnlyStmt(w.num(a), w.num(b), Secret(value=w.num(x)))
            return st.verify(st.prove())
        out, v = w.call(go)
        return {"how": "range only", "out": "T" if out == "ok" and v is True else "F"}

    def pow(self):
        r, q = self.rng, self.R.q(1)
        n = r.choice(SIZES + (LARGE if self.R.profile not in ("bp", "k1") and r.random() < 0.1 else []))
        x = r.choice([0, 1, 2 ** n - 1, 2 ** n - 1, 2 ** n, 2 ** n, 2 ** n + 1, -1, 2 ** (n - 1), r.randrange(2 ** n), 2 ** (n + 1), 2 ** n + 2 ** 31])
        G, H = self.base(1), self.base(2)
        rd = r.choice([0, q - 1, r.randrange(q)])
        tree = {"k": "pow", "com": self.lin((x, G), (rd, H)), "g": G, "h": H, "n": n, "x": "x", "r": "r"}
        vals = {"x": x, "r": rd}
        outs = [self.honest(self.context(tree, vals, r.choice(["", "", "or"])), vals, r.choice(["prove", "session"]))]
        cheats = []
        if not 0 <= x < 2 ** n:
            cheats = self.attacks(tree, lambda m, p, j: vals[m], [{"pow": c} for c in r.sample(["more", "long", "wrap", "norand", "digit"], 2)])
        self.add("pow", outs, cheats, x=x, n=n)

    def pairs(self):
        r, q = self.rng, self.R.q(1)
        x = self.number()
        y = x + r.choice([0, 0, 0, q, -q, self.amount(), self.amount(), self.amount(), -2 * x])
        return x, y, q

    def dl(self):
        r = self.rng
        x, y, q = self.pairs()
        g = r.choice([1, 1, 2, 4, 6])
        ts = [self.base(i, g) for i in range(r.choice([1, 2, 3]))]
        others = [self.number() for _ in ts[1:]]
        tree = {"k": "dl", "lhs": self.lin((y, ts[0]), *zip(others, ts[1:]), g=g), "b": ts, "x": ["x", "y", "z"][:len(ts)], "how": "sum"}
        vals = dict(zip(["x", "y", "z"], [x] + others))
        outs = [self.honest(tree, vals, h) for h in ("prove", "dict", "session")]
        cheats = []
        if (x - y) % q:
            cheats = self.attacks(tree, lambda m, p, j: vals[m], [{}])
        self.add("dl", outs, cheats, x=x, y=y, m=self.mod(y - x, q))

    def same(self):
        """One secret in two conjuncts that hold for different values."""
        r = self.rng
        x, y, q = self.pairs()
        g = r.choice([1, 2, 4])
        A, B, Cc = self.base(0), self.base(1, g), self.base(2)
        one = {"k": "dl", "lhs": self.lin((x, A)), "b": [A], "x": ["x"], "how": "sum"}
        two = {"k": "dl", "lhs": self.lin((y, B), g=g), "b": [B], "x": ["x"], "how": "sum"}
        z = {"k": "dl", "lhs": self.lin((5, Cc)), "b": [Cc], "x": ["z"], "how": "sum"}
        tree = r.choice([{"k": "and", "s": [one, two], "how": "ctor"}, {"k": "and", "s": [one, z, two], "how": "op"},
                         {"k": "and", "s": [z, one, {"k": "and", "s": [two, z], "how": "ctor"}], "how": "ctor"},
                         {"k": "dl", "lhs": self.lin((x, A), (y, Cc)), "b": [A, Cc], "x": ["x", "x"], "how": "sum"}])
        outs = [self.honest(tree, {"x": x, "z": 5}, h) for h in ("prove", "session")]
        cheats = []
        if (x - y) % q:
            seen = []

            def wit(m, p, j):
                if m == "z":
                    return 5
                seen.append(p)
                return x if len(seen) % 2 else y
            looks = [("low", b) for b in (8, 16, 31, 32, 63, 64, 128, 256)] + [("high", 64), ("near", 0)]
            cheats = self.attacks(tree, wit, [{}], looks)
        self.add("same", outs, cheats, x=x, y=y, m=self.mod(y - x, q))

    def neq(self):
        r = self.rng
        x, y, q = self.pairs()
        i = r.randrange(2)
        h0, h1 = self.lin((r.randrange(1, q), self.base(0))), self.lin((r.randrange(1, q), self.base(i)))
        tree = {"k": "neq", "h0": h0, "H0": self.lin((x, h0)), "h1": h1, "H1": self.lin((y, h1)), "x": "x", "bind": r.random() < 0.5}
        vals = {"x": x}
        outs = [self.honest(self.context(tree, vals, r.choice(["", "", "and", "or"])), vals, h) for h in ("prove", "session")]
        cheats = []
        if (x - y) % q == 0:
            cheats = self.attacks(tree, lambda m, p, j: x, [{"neq": c} for c in ("identity", "other", "split", "honest")])
        self.add("neq", outs, cheats, x=x, y=y, m=self.mod(y - x, q))

    # --------------------------------------------------------- altered proofs
    def flip(self):
        from .drivers import with_fields
        r, w = self.rng, self.w
        q = self.R.q(1)
        v = {n: self.number() for n in "xyz"}
        dl = lambda g, *ts: {"k": "dl", "lhs": self.lin(*[(v[n], self.base(i, g)) for n, i in ts], g=g), "b": [self.base(i, g) for _, i in ts],
                             "x": [n for n, _ in ts], "how": "sum"}
        # (its secret has no value)
        fals = lambda g, i: {"k": "dl", "lhs": self.lin((7, self.base(i, g)), g=g), "b": [self.base(i, g)], "x": ["f"], "how": "sum"}
        h0, h1 = self.base(0), self.base(1)
        neq = {"k": "neq", "h0": h0, "H0": self.lin((v["x"], h0)), "h1": h1, "H1": self.lin((v["x"] + self.amount(), h1)), "x": "x", "bind": True}
        name = r.choice(["dl", "and", "neq", "or", "nested", "rng"])
        if name == "rng":
            G, H = self.base(1), self.base(2)
            v.update(x=r.randrange(3, 9), y=v["y"])
            tree = {"k": "rng", "com": self.lin((v["x"], G), (v["y"], H)), "g": G, "h": H, "a": 3, "b": 9, "x": "x", "r": "y"}
        else:
            tree = {"dl": lambda: dl(r.choice([1, 2, 4, 6]), ("x", 0), ("y", 1), ("z", 2)),
                    "and": lambda: {"k": "and", "s": [dl(1, ("x", 0), ("y", 1)), dl(2, ("z", 0)), dl(4, ("y", 1), ("x", 2))], "how": "ctor"},
                    "neq": lambda: neq,
                    "or": lambda: {"k": "or", "s": [fals(1, 0), dl(1, ("y", 1), ("z", 2)), fals(2, 3)], "how": "ctor"},
                    "nested": lambda: {"k": "and", "s": [dl(1, ("x", 0)), {"k": "or", "s": [
                        {"k": "and", "s": [dl(1, ("y", 1)), {"k": "or", "s": [dl(2, ("z", 2)), fals(1, 3)], "how": "op"}], "how": "op"},
                        fals(4, 3)], "how": "op"}], "how": "ctor"}}[name]()
        self.n += 1
        p, vf = "p%d" % self.n, "v%d" % self.n
        w.mk(p, tree, p, {n: v[n] for n in (("x", "y") if name == "rng" else ("x",) if name == "neq" else "xyz")})
        w.mk(vf, tree, vf, {})
        n = w.prove(p, None, "m") if p in w.objs and vf in w.objs else None
        if n is None:
            return self.forget(p, vf)
        self.add("flip", [{"how": name, "out": w.verify(vf, n, "m")}], [], x=0, m=self.mod(0, q))
        from petlib.bn import Bn
        spots = [(f, i) for f in ("challenge", "responses", "precommitment") for i in range(len(bns(getattr(n, f))))]
        for f, i in r.sample(spots, min(8, len(spots))):
            top = 126 if f == "challenge" or name in ("or", "nested", "rng") else min(self.R.q(g) for g in (1, 2, 4, 6)).bit_length() - 2
            d = self.amount(top)
            new = change(getattr(n, f), i, lambda b: Bn.from_decimal(str(int(b) + d)))
            live = f == "responses" and r.random() < 0.2
            res = w.verify(vf, with_fields(n, **{f: new}), "m")
            self.add("flip", [], [{"how": "%s %s %d" % (name, f, i), "out": res}], x=d, m=self.mod(d, 2 ** 128 if top == 126 else q))
        # and in a session
        at = len(w.events)
        res = w.pcom(p, "sp", None)
        if res is not None:
            c = w.vchal(vf, "sv", res[0], res[1])
            if c is not None and "sv" in w.sess:
                resp = w.presp("sp", c)
                i = r.randrange(max(1, len(bns(resp))))
                d = self.amount(126)
                out = w.vver("sv", change(resp, i, lambda b: Bn.from_decimal(str(int(b) + d))))
                self.add("flip", [], [{"how": "%s session %d" % (name, i), "out": out}], x=d, m=self.mod(d, 2 ** 128))
        w.sess.clear()
        self.forget(p, vf)


def bns(x):
    """The numbers of a value."""
    from petlib.bn import Bn
    if isinstance(x, Bn):
        return [x]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in bns(z)]
    if isinstance(x, dict):
        return [y for k in sorted(x) for y in bns(x[k])]
    return []


def change(x, i, f):
    """Replace the i-th number."""
    from petlib.bn import Bn
    count = [-1]

    def go(x):
        if isinstance(x, Bn):
            count[0] += 1
            return f(x) if count[0] == i else x
        if isinstance(x, (list, tuple)):
            return type(x)([go(y) for y in x])
        if isinstance(x, dict):
            new = {k: go(x[k]) for k in sorted(x)}
            return {k: new[k] for k in x}
        return x
    return go(x)


def run(u, work):
    from .ship import realm
    t0 = time.time()
    rng = random.Random(u["seed"] * 6007 + u.get("salt", 0))
    w = Quiet(realm(u["profile"]))
    cs = Wide(w, rng)
    kinds = u["kinds"]
    for i in range(u["n"]):
        if time.time() - t0 > u.get("budget", 120):
            break
        getattr(cs, kinds[i % len(kinds)])()
        w.events = []
    t1 = time.time()
    path = os.path.join(work, "trace.json")
    with open(path, "w") as f:
        json.dump(cs.out, f)
    r = tlc.check_trace(path, module="ZkWide")
    count = {}
    for e in cs.out:
        for o in e["outs"]:
            k = "%s:honest:%s" % (e["kind"], o["out"])
            count[k] = count.get(k, 0) + 1
        for o in e["cheats"]:
            k = "%s:attack:%s" % (e["kind"], o["out"])
            count[k] = count.get(k, 0) + 1
    num = lambda l: (lambda x: x - 2 ** (8 * W) if l[-1] >= 128 else x)(int.from_bytes(bytes(l), "little"))
    show = lambda e: {k: str(num(x)) if isinstance(x, list) and x and isinstance(x[0], int) else x for k, x in e.items() if k != "m"}
    return {"bad": r["bad"], "degen": 0, "events": len(cs.out), "states": r["states"], "scenarios": len(cs.out), "calls": w.ncalls,
            "t_gen": 0, "t_drive": t1 - t0, "t_tlc": r["secs"], "kinds": count,
            "where": [{"clause": b[0], "event": b[1], "tag": b[2], "scenario": b[1], "events": [show(cs.out[b[1] - 1])]} for b in r["bad"][:6]],
            "sample": [show(e) for e in cs.out[:4]]}
