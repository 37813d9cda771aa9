"""
Proofs that travel between processes, on real and on transparent groups, recorded for spec/ZkShip.tla.

A process is started as `python -m zkv.ship JOB OUT`; every process builds the same statements from
the same generated scenarios.
"""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys
import time

from . import tlc
from .world import guarded

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# environments of the processes: variables, interpreter options
ENVS = [({"PYTHONHASHSEED": "0"}, []), ({"PYTHONHASHSEED": "1"}, []), ({"PYTHONHASHSEED": "4242", "LC_ALL": "C", "PYTHONUTF8": "0"}, ["-O"]),
        ({"PYTHONHASHSEED": "random", "TZ": "Asia/Tokyo"}, []), ({"PYTHONHASHSEED": "99", "PYTHONDEVMODE": "0"}, ["-OO"])]


class Real(object):
    """Real groups under the numbers of the generated scenarios; points as combinations of independent ones."""

    # numbers 1, 2, 4 and 6 have the same order
    PROFILES = {"p224": (713, 713, 714, 713, 713), "k1": (714, 714, 415, 714, 714), "p256": (415, 415, 713, 415, 415),
                "bp": ("G1", "G2", 713, "G1", "GT")}

    def __init__(self, profile):
        from petlib.ec import EcGroup
        from petlib.bn import Bn
        from zksk.pairings import BilinearGroupPair
        self.Bn = Bn
        self.profile = profile
        bp = BilinearGroupPair()
        self.g = {}
        for n, what in zip((1, 2, 3, 4, 6), self.PROFILES[profile]):
            self.g[n] = {"G1": bp.G1, "G2": bp.G2, "GT": bp.GT}[what] if isinstance(what, str) else EcGroup(what)
        self.orders = {n: int(G.order()) for n, G in self.g.items()}
        self.bases = {}

    def q(self, g):
        return self.orders[g]

    order = q

    def d(self, g):
        return 8

    def base(self, g, i):
        if (g, i) not in self.bases:
            k = int.from_bytes(hashlib.sha512(b"base %d %d" % (g, i)).digest(), "big") % self.q(g)
            self.bases[g, i] = self.Bn.from_decimal(str(k)) * self.g[g].generator()
        return self.bases[g, i]

    def point(self, g, v):
        res = self.g[g].infinite()
        for i, c in enumerate(v):
            if c % self.q(g):
                res = res + self.Bn.from_decimal(str(c % self.q(g))) * self.base(g, i)
        return res


_realms = {}


def realm(profile):
    if profile not in _realms:
        from .world import Toy
        _realms[profile] = Real(profile) if profile in Real.PROFILES else Toy(profile)
    return _realms[profile]


def structure(t, R):
    """A statement for the specification."""
    P = lambda p: "%d:%s" % (p[0], ",".join(str(c % R.q(p[0])) for c in p[1]))
    k = t["k"]
    # (secrets that occur in no equation are not part of the statement)
    n = {"k": k, "f": "", "x": [], "s": [], "hook": False}
    if k == "dl":
        n.update(f=P(t["lhs"]) + " = " + " ".join(P(b) for b in t["b"]), x=list(t["x"]))
    elif k in ("and", "or"):
        n["s"] = [structure(s, R) for s in t["s"]]
    elif k == "neq":
        n.update(f=" ".join(P(t[z]) for z in ("h0", "H0", "h1", "H1")) + str(bool(t["bind"])), x=[t["x"]] if t["bind"] else [])
    elif k in ("pow", "rng"):
        n.update(f=" ".join(P(t[z]) for z in ("com", "g", "h")) + " %s %s %s" % (t.get("n"), t.get("a"), t.get("b")), x=[t["x"], t["r"]] if k == "rng" else [])
    elif k == "bbs":
        n.update(f=t["id"], x=t["x"][2:])
    elif k == "xplain":
        n.update(f=t["cls"], s=[structure(t["inner"], R)], hook=t["val"] != "ok")
    else:
        n.update(f=t["cls"] + " " + " ".join(P(t[z]) for z in ("g", "h", "P") if z in t) + t.get("form", ""), x=[t["x"]], hook=t["val"] != "ok")
    return n


def dump(x):
    """A value with the kinds of all its parts (lists and tuples are the same to msgpack)."""
    from petlib.bn import Bn
    if isinstance(x, Bn):
        return "Bn(%s)" % x.repr()
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(dump(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join("%s:%s" % (dump(k), dump(v)) for k, v in x.items()) + "}"
    if hasattr(x, "export"):
        return "%s(%s)" % (type(x).__name__, x.export().hex())
    return "%s(%r)" % (type(x).__name__, x)


def listed(x):
    if isinstance(x, (list, tuple)):
        return [listed(y) for y in x]
    if isinstance(x, dict):
        return {k: listed(v) for k, v in x.items()}
    return x


class Site(object):
    """One process: its statements and what it does with proofs."""

    def __init__(self, profile, recs, keys):
        from .world import World
        self.R = realm(profile)
        self.w = World(self.R)
        self.recs, self.keys = recs, keys
        self.calls = 0

    def scenario(self, i):
        """Statement, values given when it is built, values given when proving, the other statements."""
        from .concrete import Concrete
        from .drivers import variants
        rec = self.recs[i]
        if "bbs" in rec:
            t, vals = self.bbs(rec)
            return t, vals, None, [("rename", t)], rec["msg"]
        c = Concrete(self.R, rec)
        ctor, d = c.supply()
        vs = variants(c.tree, self.R, random.Random(rec["rnd"] + 5))
        random.Random(rec["rnd"]).shuffle(vs)
        return c.tree, ctor, d, [v for v in vs if v[0] in ("rename", "permute")] + vs[:4], c.msg

    def bbs(self, rec):
        from petlib.pack import decode
        from zksk.primitives.bbsplus import BBSPlusPublicKey, BBSPlusSignature
        w, h0, gens, A, e, s, ms = decode(bytes.fromhex(self.keys[rec["bbs"]]))
        pk = BBSPlusPublicKey(w=w, h0=h0, generators=gens)
        names = ["e", "s"] + ["m%d" % i for i in range(len(ms))]
        t = {"k": "bbs", "x": names, "_pk": pk, "_sig": BBSPlusSignature(A=A, e=e, s=s), "binding": False, "id": rec["bbs"]}
        if rec["and"]:
            t = {"k": "and", "s": [t, dict(t)], "how": "ctor"}
        return t, {n: int(m) for n, m in zip(names[2:], ms)}

    def build(self, tree, env, vals):
        for n, v in vals.items():
            self.w.secret(env, n).value = self.w.num(v)
        if "_sig" in json.dumps(tree, default=str) and not vals:
            tree = nosig(tree)
        return self.w.build(tree, env)

    def prove(self, i, env):
        tree, ctor, d, _, msg = self.scenario(i)
        self.calls += 1
        with guarded():
            st = self.build(tree, env, ctor)
            n = st.prove({self.w.secret(env, k): self.w.num(v) for k, v in d.items()} if d is not None else {}, message=msg)
        assert n is not None
        return n

    def verify(self, i, which, n, msg, env):
        """which: None for the statement itself, or the number of another one."""
        tree, _, _, vs, _ = self.scenario(i)
        self.calls += 1
        try:
            with guarded():
                st = self.build(tree if which is None else vs[which][1], env, {})
                return "T" if st.verify(n, message=msg) is True else "F"
        except Exception as x:
            self.error = x
            return "E"


def nosig(t):
    if t["k"] in ("and", "or"):
        return dict(t, s=[nosig(s) for s in t["s"]])
    return dict(t, _sig=None)


def child(job):
    from zksk.base import NIZK
    if job["do"] == "prove":
        s = Site(job["profile"], job["recs"], job["keys"])
        out = []
        for i in range(len(job["recs"])):
            try:
                out.append(s.prove(i, "e%d" % i).serialize().hex())
            except Exception as x:
                out.append("E" + repr(x)[:200])
        return out
    early = {}
    if job.get("early"):
        if job["profile"] not in Real.PROFILES:
            realm(job["profile"])
        # deserialized before anything else happens in this process
        for n, data in job["data"].items():
            try:
                early[n] = NIZK.deserialize(bytes.fromhex(data))
            except Exception as x:
                early[n] = None
    s = Site(job["profile"], job["recs"], job["keys"])
    out = []
    for k, (i, which, n, msg) in enumerate(job["checks"]):
        try:
            p = early[n] if job.get("early") else NIZK.deserialize(bytes.fromhex(job["data"][n]))
        except Exception as x:
            out.append("E")
            continue
        out.append(s.verify(i, which, p, msg, "v%d" % k))
    return out


def run_child(job, env, work, tag):
    a, b = os.path.join(work, tag + ".job"), os.path.join(work, tag + ".out")
    with open(a, "w") as f:
        json.dump(job, f)
    e = dict(os.environ)
    e.update(env[0])
    subprocess.run([sys.executable, "-B", "-W", "ignore"] + env[1] + ["-m", "zkv.ship", a, b], env=e, cwd=ROOT, check=True, timeout=600,
                   stdout=subprocess.DEVNULL)
    with open(b) as f:
        return json.load(f)


def make_keys(rng):
    """Key material and signatures, serialized: what the processes share."""
    from petlib.bn import Bn
    from petlib.pack import encode
    from zksk.pairings import BilinearGroupPair
    from zksk.primitives.bbsplus import BBSPlusKeypair, BBSPlusSignatureCreator
    keys = {}
    for name, nm in (("one", 1), ("three", 3)):
        bp = BilinearGroupPair()
        kp = BBSPlusKeypair.generate(bp, 2 + nm)
        ms = [Bn.from_decimal(str(rng.choice([0, 1, 5, rng.randrange(2 ** 250)]))) for _ in range(nm)]
        cr = BBSPlusSignatureCreator(kp.pk)
        com = cr.commit(ms)
        sig = cr.obtain_signature(kp.sk.sign(com.com_message))
        keys[name] = encode([kp.pk.w, kp.pk.h0, kp.pk.generators, sig.A, sig.e, sig.s, ms]).hex()
    return keys


def run(u, work):
    from .unit import generate
    from .drivers import mutations, with_fields, other_msg
    t0 = time.time()
    seed = u["seed"] * 7919 % 1000003 + u.get("salt", 0)
    rng = random.Random(seed)
    recs = generate(u["family"], u["n"], seed, work)
    profile = u["profile"]
    R0 = realm(profile)   # (the transparent groups are installed before the library is imported)
    from petlib.bn import Bn
    from zksk.base import NIZK
    keys = {}
    if profile == "bp":
        keys = make_keys(rng)
        recs += [{"bbs": "one", "and": False, "msg": "m", "rnd": 0}, {"bbs": "three", "and": rng.random() < 0.5, "msg": "", "rnd": 0}]
    t1 = time.time()
    site = Site(profile, recs, keys)
    envs = rng.sample(ENVS, 3)
    theirs = [run_child({"do": "prove", "profile": profile, "recs": recs, "keys": keys}, e, work, "p%d" % j) for j, e in enumerate(envs[:u.get("provers", 1)])]
    events, data, checks, starts = [], {}, [], []
    spots = []
    for i, rec in enumerate(recs):
        tree, _, _, vs, msg = site.scenario(i)
        starts.append(len(events))

        def emit(ev, **kw):
            events.append(dict({"ev": ev, "tag": ""}, **kw))
        emit("new")
        emit("stmt", o="s", st=structure(tree, site.R), out="ok")
        for j, (name, t2) in enumerate(vs):
            emit("stmt", o="v%d" % j, st=structure(t2, site.R), out="ok", tag=name)
        proofs = []
        try:
            n = site.prove(i, "e%d" % i)
            emit("prove", o="s", n="%d.own" % i, msg=msg, out="ok")
            proofs.append(("%d.own" % i, n, False))
            for j, (name, resp) in enumerate(rng.sample(mutations(n.responses, rng, site.R.q(1)) or [("", n.responses)], 2)):
                if name in ("+1", "-1", "0", "1", "rand", "neg", "+q", "copy"):
                    k = "%d.%d.%s" % (i, j, name)
                    emit("forge", n=k, **{"from": "%d.own" % i})
                    if j:
                        proofs.append((k, with_fields(n, responses=resp), True))
                        continue
                    # another object, serialized before it is changed
                    m = copy.copy(n)
                    m.serialize()
                    m.responses = resp
                    proofs.append((k, m, True))
        except Exception as x:
            site.error = x
            emit("prove", o="s", n="%d.own" % i, msg=msg, out="E", tag=repr(x)[:80])
        for j, th in enumerate(theirs):
            k = "%d.by%d" % (i, j)
            ok = not th[i].startswith("E")
            emit("prove", o="s", n=k, msg=msg, out="ok" if ok else "E", tag=th[i][:80] if not ok else "")
            if ok:
                data[k] = th[i]
                try:
                    proofs.append((k, NIZK.deserialize(bytes.fromhex(th[i])), False))
                except Exception as x:
                    emit("ship", n=k, out="E", eq=False, was="", **{"is": "", "again": False})
        for k, n, forged in proofs:
            e = {"n": k, "out": "ok", "eq": False, "was": "", "is": "", "again": False}
            m = None
            try:
                raw = n.serialize()
                m = NIZK.deserialize(raw)
                data[k] = raw.hex()
                parts = lambda z: [dump(z.challenge), dump(z.responses), dump(z.precommitment), dump(z.stmt_hash)]
                e.update(was=parts(n), again=m.serialize() == raw,
                         eq=bool(with_fields(n, responses=listed(n.responses), precommitment=listed(n.precommitment)) == m))
                e["is"] = parts(m)
            except Exception as x:
                site.error = x
                e.update(out="E", was=[], again=False, eq=False)
                e["is"] = []
            emit("ship", **e)
            cases = [(None, msg)]
            if not forged:
                cases += [(j, msg) for j in range(len(vs))][:4] + [(None, other_msg(msg, rng))]
            for which, mm in cases:
                o = "s" if which is None else "v%d" % which
                emit("verify", n=k, o=o, msg=mm, out=site.verify(i, which, n, mm, "a%d" % len(events)), tag="as it was")
                if m is not None:
                    emit("verify", n=k, o=o, msg=mm, out=site.verify(i, which, m, mm, "b%d" % len(events)), tag="transported")
                    checks.append((i, which, k, mm))
                    spots.append((len(events), o))
    # the same checks in other processes
    more = {}
    for j, e in enumerate(envs[1:]):
        got = run_child({"do": "verify", "profile": profile, "recs": recs, "keys": keys, "data": data, "checks": checks, "early": j == 0}, e, work, "v%d" % j)
        for (at, o), c, out in zip(spots, checks, got):
            more.setdefault(at, []).append({"ev": "verify", "n": c[2], "o": o, "msg": c[3], "out": out, "tag": "process " + " ".join(list(e[0].values()) + e[1])})
    final, newstarts = [], []
    for at, e in enumerate(events):
        if at in starts:
            newstarts.append(len(final) + len(more.get(at, [])))
        final += more.get(at, []) + [e]
    final += more.get(len(events), [])
    for e in final:
        if "msg" in e:
            e["msg"] = hashlib.sha256(e["msg"].encode("utf-8", "surrogatepass")).hexdigest()[:20]
    t2 = time.time()
    path = os.path.join(work, "trace.json")
    with open(path, "w") as f:
        json.dump(final, f)
    r = tlc.check_trace(path, module="ZkShip", heap="3g")
    kinds = {}
    for e in final:
        k = e["ev"] + ":" + str(e.get("out", ""))
        kinds[k] = kinds.get(k, 0) + 1
    where = []
    for clause, ev, tag in sorted(r["bad"], key=lambda b: b[1])[:6]:
        i = max([j for j, s in enumerate(newstarts) if s <= ev - 1] or [0])
        where.append({"clause": clause, "event": ev, "tag": tag, "scenario": i, "events": final[newstarts[i]:ev]})
    return {"bad": r["bad"], "degen": 0, "events": len(final), "states": r["states"], "scenarios": len(recs), "calls": site.calls + 2 * len(checks),
            "t_gen": t1 - t0, "t_drive": t2 - t1, "t_tlc": r["secs"], "kinds": kinds, "where": where, "sample": final[1:6]}


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        job = json.load(f)
    if job["profile"] not in Real.PROFILES:
        realm(job["profile"])
    res = child(job)
    with open(sys.argv[2], "w") as f:
        json.dump(res, f)
