"""
Samples the randomness of the real code on transparent groups of a large order, for spec/ZkRand.tla:
proofs made by the same and by fresh objects, provers, threads and processes, after all kinds of other
operations, with the seedable generator and the clocks reset; the transcripts of disjunctions for every
branch that the prover may know; and the challenges of interactive verifiers.
"""
import json
import math
import os
import random
import subprocess
import sys
import threading
import time

from . import tlc
from .world import unit, guarded

DELTAS = {2 ** 256 - 189: 189, 2 ** 256 - 357: 357}


# ------------------------------------------------------------------ projection
def lim(n):
    return list(int(n).to_bytes(32, "little"))


def pt(g, v, cls="P"):
    return {"t": "P", "g": g, "v": [lim(x) if x else [] for x in v], "c": cls}


def value(w, x):
    from petlib.bn import Bn
    if x is None:
        return {"t": "N"}
    if isinstance(x, (Bn, int)):
        n = int(x)
        return {"t": "I", "n": 1 if n < 0 else 0, "o": 0 if abs(n) < 2 ** 256 else 1, "l": lim(abs(n) % 2 ** 256), "c": type(x).__name__}
    if isinstance(x, (list, tuple)):
        return {"t": "L", "c": type(x).__name__, "e": [value(w, y) for y in x]}
    if isinstance(x, dict):
        return {"t": "D", "c": type(x).__name__, "e": [[str(k), value(w, v)] for k, v in sorted(x.items(), key=lambda i: str(i[0]))]}
    if isinstance(x, (str, bytes)):
        return {"t": "S", "s": repr(x)}
    p = w.realm.vec(x)
    if p is not None:
        return pt(p[0], p[1], type(x).__name__)
    return {"t": "U", "s": type(x).__name__}


def spec(t):
    """A description for the specification, with numbers as bytes."""
    P = lambda p: pt(p["g"], p["v"])
    t = dict(t)
    for k in ("lhs", "H0", "h0", "H1", "h1", "com", "g", "h"):
        if k in t and isinstance(t[k], dict):
            t[k] = P(t[k])
    if t["k"] == "dl":
        t["b"] = [P(b) for b in t["b"]]
    elif t["k"] in ("and", "or"):
        t["s"] = [spec(s) for s in t["s"]]
    elif t["k"] == "bbs":
        t["g"] = [P(g) for g in t["g"]]
        t["w"], t["hz"] = lim(t["w"]), lim(t["hz"])
        del t["A"]
    elif t["k"] == "xplain":
        t["inner"] = spec(t["inner"])
    return t


def fair(n):
    """The largest b such that fewer than b heads of n have a probability below 1e-13."""
    tot, b = 0, 0
    for k in range(n + 1):
        tot += math.comb(n, k)
        if tot * 10 ** 13 > 2 ** n:
            return k
    return n


# ------------------------------------------------------------------ statements
class Stmts(object):
    def __init__(self, w, rng):
        self.w, self.rng, self.R = w, rng, w.realm
        self.vals = {n: rng.randrange(2 ** 250, self.q(1)) for n in ("x", "y", "z", "u", "v")}
        self.vals.update(p=2, s=rng.randrange(2 ** 250, self.q(1)))

    def q(self, g):
        return self.R.q(g)

    def E(self, i, g=1):
        d = self.R.d(g)
        return (g, unit(d, i % d)) if d > 1 else (g, [1 + (i * i * 7919 + i * 104729)])

    def lin(self, g, *ts):
        v = [0] * self.R.d(g)
        for k, b in ts:
            v = [(x + k * y) % self.q(g) for x, y in zip(v, b[1])]
        return (g, v)

    def dl(self, *ts, g=1, off=0, how="sum"):
        B = [self.E(i, g) for _, i in ts]
        lhs = self.lin(g, *[(self.vals[n], b) for (n, _), b in zip(ts, B)])
        if off:
            lhs = self.lin(g, (1, lhs), (off, self.E(11, g)))
        return {"k": "dl", "lhs": lhs, "b": B, "x": [n for n, _ in ts], "how": how}

    def neq(self, x="x", bind=False, i=0):
        h1 = self.E(2 + i)
        H1 = self.lin(1, (self.rng.randrange(2 ** 200, 2 ** 250), h1))
        return {"k": "neq", "h0": self.E(i), "H0": self.lin(1, (self.vals[x], self.E(i))), "h1": h1, "H1": H1, "x": x, "bind": bind}

    def pow(self, n):
        g, h = self.E(5), self.E(6)
        p = self.vals["p"] if n > 1 else 1
        return {"k": "pow", "com": self.lin(1, (p, g), (self.vals["s"], h)), "g": g, "h": h, "n": n,
                "x": "p" if n > 1 else "p1", "r": "s"}

    def rng_(self, a, b):
        g, h = self.E(5), self.E(6)
        return {"k": "rng", "com": self.lin(1, (self.vals["p"], g), (self.vals["s"], h)), "g": g, "h": h, "a": a, "b": b,
                "x": "p", "r": "s"}

    def pre(self, k, x="x", i=0, cls="Pre"):
        return {"k": k, "cls": cls, "g": self.E(8 + i), "h": self.E(9 + i), "x": x, "val": "ok", "sim": True}

    def AND(self, *s):
        return {"k": "and", "s": list(s), "how": "ctor"}

    def OR(self, *s):
        return {"k": "or", "s": list(s), "how": "ctor"}

    def plain(self, t):
        return {"k": "xplain", "cls": "Plain", "val": "ok", "inner": t}

    def sig(self, n):
        """A possession statement; sets the values of its secrets."""
        from .sigs import Sig, issue
        w = self.w
        w.new("keys")
        w.bbskey("K", n)
        msgs = [self.rng.randrange(2 ** 200, 2 ** 250) for _ in range(n)]
        sig = issue(w, self.rng, "K", msgs, "u")
        S = Sig(w, "K", msgs, sig, "a")
        self.vals.update({"m%d" % i: m for i, m in enumerate(msgs)})
        self.vals.update(ae=int(sig.e))
        self.vals["as"] = int(sig.s)
        return S, sig

    def one(self, name):
        dl, neq, AND, OR, pre, plain = self.dl, self.neq, self.AND, self.OR, self.pre, self.plain
        self.vals["p1"] = 1
        return {
            "dl": lambda: dl(("x", 0), ("y", 1), ("z", 2)),
            "again": lambda: dl(("x", 0), ("x", 1), ("y", 2), ("z", 3), how="wsum"),
            "and": lambda: AND(dl(("x", 0), ("y", 1)), dl(("y", 2), ("z", 3)), AND(dl(("z", 4)), dl(("u", 0), ("v", 1), g=3))),
            "or": lambda: OR(dl(("x", 0), ("y", 1)), dl(("x", 2), ("z", 3)), AND(dl(("x", 4)), dl(("y", 5)))),
            "orfalse": lambda: OR(dl(("x", 0), ("y", 1)), dl(("x", 2), ("z", 3), off=1), dl(("z", 4), off=2)),
            "andor": lambda: AND(dl(("x", 0), ("y", 1)), OR(dl(("z", 2)), dl(("u", 3), ("v", 4))), dl(("x", 5))),
            "neq": lambda: neq(),
            "andneq": lambda: AND(neq(bind=True), dl(("x", 5), ("y", 6)), neq("y", i=7)),
            "pow1": lambda: self.pow(1),
            "pow": lambda: self.pow(3),
            "rng": lambda: self.rng_(1, 5),
            "xpt": lambda: pre("xpt"),
            "xtup": lambda: pre("xtup"),
            "xplain": lambda: plain(AND(dl(("x", 0), ("y", 1)), dl(("y", 2), ("z", 3)))),
            "orneq": lambda: OR(neq("x"), pre("xpt", "y"), dl(("z", 3))),
            "deep": lambda: OR(AND(neq("x", bind=True), OR(dl(("y", 4)), pre("xpt", "z"))), AND(dl(("z", 6)), dl(("z", 7), off=1))),
            "bbs": lambda: (lambda S, s: S.tree(["m0", "m1"], s, False))(*self.sig(2)),
            "twin": lambda: dl(("x", 0), ("y", 0)),
            "andtwin": lambda: AND(dl(("x", 0), ("y", 0)), dl(("y", 1), ("z", 1), ("u", 2)), dl(("v", 3), ("z", 3), ("x", 3))),
            "andbbs": lambda: (lambda S, s: AND(S.tree(["m0", "m1"], s, True), dl(("m0", 10), ("y", 11))))(*self.sig(2)),
        }[name]()


CTOR_ONLY = ("p", "p1", "s")


def secrets(t):
    k = t["k"]
    if k in ("and", "or"):
        return sorted({n for x in t["s"] for n in secrets(x)})
    if k == "xplain":
        return secrets(t["inner"])
    if k in ("dl", "bbs"):
        return sorted(set(t["x"]))
    return sorted({t["x"]} | ({t["r"]} if "r" in t else set()))


def fork(col, act):
    """Two processes go on from one state: act is done by the child and by the parent, and adds to col.out."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            col.out = []
            act("child")
            with os.fdopen(wr, "w") as f:
                json.dump(col.out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    act("parent")
    if data:
        col.out.extend(json.loads(data))


class Maker(object):
    """Makes proofs of one statement in many ways."""

    def __init__(self, w, tree, vals, rng, reveal=False):
        self.w, self.tree, self.rng = w, tree, rng
        self.names = [n for n in secrets(tree) if n in vals]
        self.vals = {n: vals[n] for n in self.names}
        self.sp = spec(w.spec_tree(tree))
        # (given where the nonces of single secrets cannot be read off the commitment)
        self.known = [[n, lim(v)] for n, v in sorted(self.vals.items())] if reveal else []
        self.out = []
        self.n = 0
        self.obj = self.fresh("same")
        self.prover = None

    def fresh(self, env, vals=None):
        for n, v in (self.vals if vals is None else vals).items():
            self.w.secret(env, n).value = self.w.num(v)
        return self.w.build(self.tree, env)

    def d(self, env):
        return {self.w.secret(env, n): self.w.num(v) for n, v in self.vals.items()}

    def add(self, c, r, pre, tag):
        w = self.w
        self.out.append({"st": self.sp, "known": self.known, "c": value(w, c), "r": value(w, r), "pre": value(w, pre), "tag": tag})

    def nizk(self, n, tag):
        if n is not None:
            self.add(n.challenge, n.responses, n.precommitment, tag)

    def session(self, pr, obj, tag):
        pre = pr.precommit()
        com = pr.commit()
        v = obj.get_verifier()
        v.process_precommitment(pre)
        c = v.send_challenge(com)
        self.add(c, pr.compute_response(c), pre, tag)

    def forked(self):
        """A proof made by a child process, and one by its parent."""
        fork(self, lambda who: self.nizk(self.obj.prove(), "fork " + who))

    def threads(self):
        objs = [self.fresh("t%d.%d" % (self.n, i)) for i in range(3)]
        res = [None] * 3

        def go(i):
            try:
                res[i] = objs[i].prove()
            except Exception:
                pass
        ts = [threading.Thread(target=go, args=(i,)) for i in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for n in res:
            self.nizk(n, "thread")

    def step(self, i):
        random.seed(7)
        self.n += 1
        o = self.obj
        kind = i % 11
        if kind == 0:
            self.nizk(o.prove(), "same object")
        elif kind == 1:
            dictable = not any(n in CTOR_ONLY for n in self.names)
            self.nizk(o.prove(self.d("same") if dictable else {}, message="m"), "same object, values given")
        elif kind == 2:
            if self.prover is None:
                self.prover = o.get_prover()
            self.nizk(self.prover.get_nizk_proof(), "same prover")
            self.nizk(self.prover.get_nizk_proof("m"), "same prover")
        elif kind == 3:
            self.nizk(self.fresh("same").prove(), "other object, same secrets")
        elif kind == 4:
            self.nizk(self.fresh("e%d" % self.n).prove(), "other object")
        elif kind == 5:
            pr = o.get_prover()
            self.session(pr, self.fresh("v", {}), "session")
            self.session(pr, self.fresh("v", {}), "session, same prover")
        elif kind == 6:
            n = o.prove()
            self.nizk(n, "before verification")
            v = self.fresh("v", {})
            v.verify(n, message="other")
            o.verify(n)
            try:
                v.prove()
            except Exception:
                pass
            try:
                o.simulate()
            except Exception:
                pass
            self.nizk(o.prove(), "after failures")
        elif kind == 7:
            p1, p2 = self.fresh("same").get_prover(), self.fresh("i%d" % self.n).get_prover()
            pre1, pre2 = p1.precommit(), p2.precommit()
            p1.commit(), p2.commit()
            c = self.w.Bn.from_decimal(str(12345 + 2 ** 120))
            self.add(c, p2.compute_response(c), pre2, "interleaved")
            self.add(c, p1.compute_response(c), pre1, "interleaved")
        elif kind == 8:
            self.forked()
        elif kind == 9:
            self.threads()
        elif kind == 10:
            a, b = o.prove(), o.prove()
            self.nizk(b, "twice")
            self.nizk(a, "twice")

    def collect(self, n, start=0):
        i, fails = start, 0
        while len(self.out) < n and fails < 30:
            try:
                with guarded():
                    self.step(i)
            except Exception as e:
                self.w.last_error = e
                fails += 1
            i += 1
        return self.out


# --------------------------------------------------------- frozen processes
def freeze():
    """Nothing but the operating system's randomness tells this process from another."""
    random.seed(1)
    t = [1.7e9]
    time.time = lambda: t[0]
    time.time_ns = lambda: int(t[0] * 1e9)
    time.monotonic = time.perf_counter = lambda: 5.0
    time.monotonic_ns = time.perf_counter_ns = lambda: 5 * 10 ** 9
    os.getpid = lambda: 4242
    os.getppid = lambda: 4241


def child(arg):
    a = json.loads(arg)
    freeze()
    from .world import Toy, World
    w = World(Toy(a["profile"]))
    if a["mode"] == "nonce":
        rng = random.Random(a["seed"])
        S = Stmts(w, rng)
        tree = S.one(a["name"])
        w.envs = {}
        m = Maker(w, tree, S.vals, rng, "twin" in a["name"])
        res = m.collect(a["n"])
    elif a["mode"] == "issue":
        res = Issuer(w, random.Random(a["seed"]), a["zkp"]).collect(a["n"])
    else:
        res = Challenges(w, random.Random(a["seed"])).collect(a["n"])
    for s in res:
        s["tag"] = "process, " + s["tag"]
    sys.__stdout__.write("\nZKCHILD " + json.dumps(res) + "\n")
    sys.__stdout__.flush()
    os._exit(0)


def children(k, **a):
    env = dict(os.environ)
    ps = [subprocess.Popen([sys.executable, "-B", "-c", "import sys; from zkv import rand; rand.child(sys.argv[1])", json.dumps(a)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env) for _ in range(k)]
    out = []
    for p in ps:
        o, e = p.communicate(timeout=300)
        for l in o.decode().split("\n"):
            if l.startswith("ZKCHILD "):
                out += json.loads(l[8:])
                break
        else:
            raise RuntimeError("child failed: " + e.decode()[-1500:])
    return out


# ------------------------------------------------------------------ challenges
class Challenges(object):
    def __init__(self, w, rng):
        self.w, self.rng = w, rng
        self.S = Stmts(w, rng)
        self.out = []
        w.envs = {}

    def parts(self):
        S = self.S
        return {"dl": S.dl(("x", 0), ("y", 1)), "and": S.AND(S.dl(("x", 0)), S.dl(("y", 1))), "or": S.OR(S.dl(("x", 0)), S.dl(("y", 1))),
                "neq": S.neq(), "xpt": S.pre("xpt"), "xplain": S.plain(S.dl(("x", 0))), "rng": S.rng_(1, 5),
                "deep": S.AND(S.neq("x"), S.OR(S.dl(("y", 4)), S.pre("xpt", "z")))}

    def add(self, c, who, tag):
        self.out.append({"c": value(self.w, c), "who": who, "tag": who + ": " + tag})

    def collect(self, n):
        """Challenges for equal commitments, by the same and by other verifiers."""
        w, S = self.w, self.S
        parts = self.parts()
        held = {}
        for who, tree in sorted(parts.items()):
            for nm in secrets(tree):
                w.secret("p", nm).value = w.num(S.vals[nm])
            st = w.build(tree, "p")
            with guarded():
                pr = st.get_prover()
                pre = pr.precommit()
                com = pr.commit()
            held[who] = (tree, st, pre, com)
        i = 0
        while len(self.out) < n:
            for who, (tree, st, pre, com) in sorted(held.items()):
                random.seed(3)
                with guarded():
                    try:
                        v = (st if i % 3 == 0 else w.build(tree, "v%d" % (i % 2))).get_verifier()
                        v.process_precommitment(pre)
                        self.add(v.send_challenge(com), who, "first")
                        if i % 2:
                            random.seed(3)
                            self.add(v.send_challenge(com), who, "same verifier, same commitment")
                        if i % 5 == 4:
                            try:
                                v.send_challenge((b"x" * 32, com[1]))
                            except Exception:
                                pass
                            self.add(v.send_challenge(com), who, "after a refused commitment")
                        if i % 4 == 1:
                            v.verify(None)
                            self.add(v.send_challenge(com), who, "after a failed verification")
                        if i % 6 == 3:
                            fork(self, lambda p: self.add(v.send_challenge(com), who, "fork " + p))
                        if i % 6 == 5:
                            v2 = w.build(tree, "v2").get_verifier()
                            v2.process_precommitment(pre)
                            fork(self, lambda p: self.add(v2.send_challenge(com), who, "fork, other verifier, " + p))
                    except Exception as e:
                        w.last_error = e
            i += 1
            if i > n:
                break
        return self.out


# -------------------------------------------------------------------- issuance
class Issuer(object):
    """Keys, requests and signatures made in many ways."""

    def __init__(self, w, rng, zkp=True):
        from zksk.primitives import bbsplus
        self.w, self.rng, self.zkp = w, rng, zkp
        self.B = bbsplus
        self.out = []
        self.key = bbsplus.BBSPlusKeypair.generate(w.realm.bp, 3)
        self.creator = bbsplus.BBSPlusSignatureCreator(self.key.pk)
        self.msgs = [rng.randrange(2 ** 200, 2 ** 250) for _ in range(3)]

    def request(self, creator, msgs=None):
        msgs = self.msgs if msgs is None else msgs
        return creator.commit([self.w.num(m) for m in msgs], zkp=self.zkp), msgs

    def add(self, key, tag, req=None, msgs=(), pre=None, new=False):
        w = self.w
        no = {"t": "N"}
        p = req.com_nizk_proof if req is not None else None
        self.out.append({
            "tag": tag, "g": [pt(*w.realm.vec(x)) for x in key.generators], "msgs": [lim(m) for m in msgs],
            "com": value(w, req.com_message) if p is not None else no, "c": value(w, p.challenge) if p is not None else no,
            "r": value(w, p.responses) if p is not None else no,
            "e": value(w, pre.e) if pre is not None else no, "s": value(w, pre.s) if pre is not None else no,
            "w": pt(*w.realm.vec(key.pk.w)) if new else no})

    def full(self, key, creator, tag, msgs=None):
        req, ms = self.request(creator, msgs)
        pre = key.sk.sign(req.com_message)
        self.add(key, tag, req, ms, pre)
        return req, pre

    def step(self, i):
        random.seed(11)
        B, key = self.B, self.key
        new = lambda: B.BBSPlusSignatureCreator(self.key.pk)
        kind = i % 8
        if kind == 0:
            self.full(key, self.creator, "same requester")
        elif kind == 1:
            self.full(key, new(), "other requester")
        elif kind == 2:
            req, pre = self.full(key, new(), "request")
            self.add(key, "signed again", pre=key.sk.sign(req.com_message))
            self.add(key, "signed a third time", pre=key.sk.sign(req.com_message))
        elif kind == 3:
            k = B.BBSPlusKeypair.generate(self.w.realm.bp, 3)
            c = B.BBSPlusSignatureCreator(k.pk)
            req, ms = self.request(c)
            self.add(k, "new key", req, ms, k.sk.sign(req.com_message), new=True)
        elif kind == 4:
            c = new()
            r1, m1 = self.request(c)
            r2, m2 = self.request(c)
            self.add(key, "two requests", r1, m1)
            self.add(key, "two requests", r2, m2, key.sk.sign(r2.com_message))
        elif kind == 5:
            fork(self, lambda who: self.full(key, self.creator, "fork " + who))
        elif kind == 6:
            req, pre = self.full(key, self.creator, "to the end", [self.rng.randrange(2 ** 250) for _ in range(3)])
            sig = self.creator.obtain_signature(pre)
            sig.verify_signature(key.pk, [self.w.num(m) for m in self.msgs])
            req.verify_blinding(key.pk)
            self.full(key, self.creator, "after verification")
        elif kind == 7:
            req, pre = self.full(key, self.creator, "of the identity")
            self.add(key, "of the identity", pre=key.sk.sign(0 * key.generators[0]))

    def collect(self, n):
        i = fails = 0
        while len(self.out) < n and fails < 30:
            try:
                with guarded():
                    self.step(i)
            except Exception as e:
                self.w.last_error = e
                fails += 1
            i += 1
        return self.out


# ---------------------------------------------------------------- disjunctions
def disjunctions(S, name):
    """(tree, {configuration: names of the values known})"""
    dl, neq, AND, OR, pre = S.dl, S.neq, S.AND, S.OR, S.pre
    S.vals["p1"] = 1
    if name == "dl2":
        return OR(dl(("x", 0)), dl(("y", 1))), {"1": "x", "2": "y"}
    if name == "dl3":
        return OR(dl(("x", 0), ("y", 1)), dl(("z", 2), ("u", 0)), dl(("v", 3), ("w", 1))), {"1": "xy", "2": "zu", "3": "vw"}
    if name == "dl5":
        return OR(*[dl((n, i)) for i, n in enumerate("xyzuv")]), {str(i): n for i, n in enumerate("xyzuv")}
    if name == "shared":
        return OR(dl(("x", 0), ("y", 1)), dl(("x", 0), ("z", 2)), AND(dl(("y", 1)), dl(("z", 1)))), {"1": "xy", "2": "xz", "3": "yz"}
    if name == "orders":
        return OR(dl(("x", 0)), dl(("u", 1), g=3)), {"1": "x", "2": "u"}
    if name == "pairing":
        return OR(dl(("x", 0), g=4), dl(("y", 0), g=5), dl(("z", 0), g=6)), {"1": "x", "2": "y", "3": "z"}
    if name == "neq":
        return OR(neq("x"), neq("y", i=4), dl(("z", 3))), {"1": "x", "2": "y", "3": "z"}
    if name == "neqbind":
        return OR(AND(neq("x", bind=True), dl(("x", 7))), dl(("z", 3), ("u", 4))), {"1": "x", "2": "zu"}
    if name == "ext":
        return OR(pre("xpt", "x"), pre("xtup", "y", cls="Tup"), S.plain(dl(("z", 3)))), {"1": "x", "2": "y", "3": "z"}
    if name == "pow":
        return OR(S.pow(2), dl(("z", 3))), {"1": "ps", "2": "z"}
    if name == "pow1":
        return OR(S.pow(1), dl(("z", 3)), neq("x")), {"1": ["p1", "s"], "2": "z", "3": "x"}
    if name == "rng":
        return OR(dl(("z", 3)), S.rng_(1, 4)), {"1": "z", "2": "ps"}
    if name == "nested":
        return (AND(dl(("v", 9)), OR(dl(("x", 0)), AND(OR(dl(("y", 1)), dl(("z", 2))), neq("u")))),
                {"1": "vx", "2": "vyu", "3": "vzu"})
    if name == "inner":
        return OR(AND(dl(("v", 9)), OR(dl(("x", 0)), dl(("x", 1)), AND(dl(("x", 2)), dl(("y", 3))))), dl(("z", 4))), {"1": "vxy", "2": "z"}
    if name == "twins":
        return OR(OR(dl(("x", 0)), dl(("x", 1), ("y", 2))), OR(neq("x"), pre("xpt", "x")), AND(neq("z"), neq("z"))), {"1": "xy", "2": "z"}
    if name == "conj":
        return AND(dl(("x", 0), ("y", 1), ("x", 2)), AND(dl(("y", 3)), neq("x", bind=True), S.plain(dl(("z", 3), ("x", 4)))), pre("xtup", "z", cls="Tup")), {"1": "xyz"}
    if name == "conjor":
        return AND(dl(("x", 0)), OR(AND(dl(("y", 1)), dl(("y", 2))), dl(("y", 3))), OR(dl(("z", 1)), dl(("z", 1)))), {"1": "xyz"}
    if name == "conjrng":
        return AND(S.rng_(1, 5), dl(("p", 1), ("x", 2)), S.pow(2)), {"1": "psx"}
    if name == "conjbbs":
        s1, sig = S.sig(2)
        return AND(s1.tree(["m0", "m1"], sig, True), dl(("m0", 10), ("y", 11))), {"1": ["m0", "m1", "y"]}
    if name == "bbs":
        s1, sig = S.sig(1)
        return OR(s1.tree(["m0"], sig, False), dl(("z", 3))), {"1": ["m0"], "2": ["z"]}
    raise ValueError(name)


def or_samples(w, S, name, n, rng):
    S.vals["w"] = rng.randrange(2 ** 250, S.q(1))
    tree, configs = disjunctions(S, name)
    w.envs = {}
    out = []
    from .sigs import nosig
    for cfg, known in sorted(configs.items()):
        names = list(known)

        def build(env, withvals=True):
            if withvals:
                for nm in names:
                    w.secret(env, nm).value = w.num(S.vals[nm])
            hidden = "m0" not in names
            return w.build(nosig(tree) if hidden else tree, env)

        def add(kind, *v):
            out.append({"kind": kind, "config": cfg, "v": value(w, list(v))})
        with guarded():
            st = build("c" + cfg)
            prover = st.get_prover()
        i = k = s = 0
        while (k < n or s < n) and i < 3 * n:
            random.seed(5)
            try:
                with guarded():
                    if k < n:
                        if i % 5 == 0:
                            st = build("c%s.%d" % (cfg, i))
                        if i % 5 == 3:
                            p = prover.get_nizk_proof("m%d" % i)
                        elif i % 5 == 2 and "p1" not in names and "p" not in names:
                            st2 = build("d%s.%d" % (cfg, i), False)
                            p = st2.prove({w.secret("d%s.%d" % (cfg, i), nm): w.num(S.vals[nm]) for nm in names})
                        else:
                            p = st.prove()
                        add("proof", p.challenge, p.responses, p.precommitment)
                        k += 1
                    if s < n:
                        pr = prover if i % 4 == 3 else st.get_prover()
                        if i % 4 == 2:
                            try:
                                add("commit", pr.commit()[1])       # (without precommitment, where there is none)
                            except Exception:
                                pass
                        pre = pr.precommit()
                        if i % 4 == 0:
                            add("start", pre)       # given up, and begun again
                            pre = pr.precommit()
                        add("start", pre)
                        com = pr.commit()
                        add("commit", com[1])
                        if i % 4 in (1, 3):
                            com = pr.commit()
                            add("commit", com[1])
                        v = build("v%s.%d" % (cfg, i), False).get_verifier()
                        v.process_precommitment(pre)
                        c = v.send_challenge(com)
                        add("session", pre, com[1], c, pr.compute_response(c))
                        s += 1
            except Exception as e:
                w.last_error = e
            i += 1
    # a simulation looks like a session
    with guarded():
        st = w.build(nosig(tree), "sim")
        for _ in range(n):
            try:
                t = st.simulate()
                out.append({"kind": "session", "config": "simulated",
                            "v": value(w, [t.precommitment, t.commitment, t.challenge, t.responses])})
            except Exception as e:
                w.last_error = e
    return out


# ----------------------------------------------------------------------- unit
def run(u, work):
    from .world import Toy, World
    t0 = time.time()
    clock = time.time
    mode, n = u["mode"], u["n"]
    w = World(Toy(u.get("profile", "hugeflat" if mode == "or" else "huge")))
    rng = random.Random(u["seed"] * 1009 + u.get("salt", 0))
    seed = u["seed"] * 1009 + u.get("salt", 0)
    if mode == "nonce":
        S = Stmts(w, random.Random(seed))
        tree = S.one(u["name"])
        w.envs = {}
        m = Maker(w, tree, S.vals, rng, "twin" in u["name"])
        out = m.collect(n // 2)
        out += children(2, mode=mode, profile=w.realm.profile, seed=seed, name=u["name"], n=n // 4)
    elif mode == "issue":
        with guarded():
            out = Issuer(w, random.Random(seed), u["zkp"]).collect(n // 2)
        out += children(2, mode=mode, profile=w.realm.profile, seed=seed, zkp=u["zkp"], n=n // 4)
    elif mode == "chal":
        out = Challenges(w, rng).collect(n // 2)
        out += children(2, mode=mode, profile=w.realm.profile, seed=seed, n=n // 4)
    else:
        out = or_samples(w, Stmts(w, rng), u["name"], n, rng)
    t1 = clock()
    path = os.path.join(work, "rand.json")
    q = [DELTAS[g["q"]] for g in w.realm.groups]
    hd = {"mode": mode, "deltas": q, "dim": w.realm.d(1), "fair": [fair(k) for k in range(len(out) + 2)],
          "bits": list(range(1, 257)) if u.get("allbits") else [b for b in range(1, 257) if b % 9 == 4 or b < 9 or 116 < b < 133 or b > 246],
          "least": 48, "pairs": u.get("pairs", 10)}
    with open(path, "w") as f:
        json.dump([hd] + out, f)
    if u.get("dump"):
        os.system("cp %s %s" % (path, u["dump"]))
    if len(out) < n // 2:
        return {"bad": [[mode + ".noproofs", 0, repr(w.last_error)[:200]]], "events": len(out), "states": 0, "calls": w.ncalls,
                "scenarios": 0, "degen": 0, "where": []}
    r = tlc.check_trace(path, module="ZkRand", timeout=700, heap="3g")
    return {"bad": r["bad"], "degen": 0, "events": len(out), "states": r["states"], "scenarios": 1, "calls": len(out),
            "t_gen": 0, "t_drive": t1 - t0, "t_tlc": r["secs"], "kinds": {mode + ":" + u.get("name", ""): len(out)},
            "where": [{"clause": b[0], "event": 0, "tag": b[2], "scenario": 0, "events": []} for b in r["bad"][:6]],
            "sample": [{"tag": s.get("tag", s.get("config", ""))} for s in out[:4]]}
