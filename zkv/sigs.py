"""BBS+ signatures: issuance, verification, proofs of possession, and people who cheat at any of them."""
import copy

from petlib.bn import Bn

from .concrete import MESSAGES
from .drivers import _points, _sample, as_proof, mutations, other_msg, with_fields
from .evil import OR_PLANS, attack

G1, GT = 4, 6


def value(rng, q):
    return rng.choice([0, 1, -1, 2, q, q + 1, q - 1, rng.randrange(q), rng.randrange(q), rng.randrange(q) - 3 * q, 2 ** 70])


def altered(sig, rng, q, other=None):
    """Changes of a signature: list of (name, signature)."""
    out = []

    def put(name, **kw):
        out.append((name, with_fields(sig, **kw)))
    for f in ("e", "s"):
        v = getattr(sig, f)
        for name, x in (("+1", v + 1), ("-1", v - 1), ("+q", v + q), ("-q", v - q), ("neg", -v), ("0", Bn(0)), ("rand", Bn(rng.randrange(q)))):
            put(f + name, **{f: x})
    put("es", e=sig.s, s=sig.e)
    for name, x in (("2", 2 * sig.A), ("neg", -1 * sig.A), ("0", 0 * sig.A)):
        put("A" + name, A=x)
    put("2A", A=2 * sig.A, e=sig.e, s=2 * sig.s)
    if other is not None:
        put("A'", A=other.A)
        put("e'", e=other.e)
        put("s'", s=other.s)
        put("A+", A=sig.A + other.A)
        put("es'", e=other.e, s=other.s)
    return out


def lists(msgs, rng, q):
    """Other lists of messages (some of them mean the same)."""
    out = []
    for i in range(len(msgs)):
        out.append(("m+1", msgs[:i] + [msgs[i] + 1] + msgs[i + 1:]))
        out.append(("m+q", msgs[:i] + [msgs[i] + q] + msgs[i + 1:]))
        out.append(("mneg", msgs[:i] + [-msgs[i]] + msgs[i + 1:]))
        out.append(("m0", msgs[:i] + [0] + msgs[i + 1:]))
    out += [("+0", msgs + [0]), ("+1", msgs + [1]), ("0+", [0] + msgs), ("none", []), ("drop", msgs[:-1]), ("first", msgs[1:]),
            ("rev", msgs[::-1]), ("+many", msgs + [0] * 6)]
    if len(msgs) > 1:
        i, j = rng.sample(range(len(msgs)), 2)
        m = list(msgs)
        m[i], m[j] = m[j], m[i]
        out.append(("swap", m))
        m = list(msgs)
        m[i], m[j] = m[i] + 1, m[j] - 1
        out.append(("move", m))
    return out


def d_issue(w, rec, rng, k=6, n=None):
    """Requests, signatures and their verification."""
    q = w.realm.q(G1)
    w.new("issue")
    n = rng.choice(n) if n else rng.randrange(1, 5) if rng.random() < 0.97 else rng.choice([7, 18])
    w.bbskey("K", n, own=rng.choice([0, 0, 2, 3]))
    w.bbskey("J", n, own=rng.choice([0, 0, 1, 4]))
    sigs = []
    lastz = {}
    for i in range(3):
        u = rng.choice(["u", "u", "v"])
        zkp = rng.random() < 0.6
        msgs = [value(rng, q) for _ in range(rng.choice([0, 1, n, n, rng.randrange(0, n + 1)]))]
        key = rng.choice(["K", "K", "J"]) if u not in w.creators else lastz[u]
        lastz[u] = key
        req = w.bbscommit(u, key, msgs, zkp=zkp, fresh=u not in w.creators)
        if req is None:
            continue
        v = w.bbsblind(key, req.com_message, req.com_nizk_proof)
        if zkp:
            forged_requests(w, key, req, rng, q, n, k)
        pre = w.bbssign(key, req.com_message)
        if pre is None:
            continue
        sig = w.bbsobtain(u, key, pre)
        if sig is None:
            continue
        w.bbsver(key, sig, msgs)
        again = w.bbssign(key, req.com_message)
        sigs.append((key, sig, msgs))
        other = rng.choice(sigs)[1]
        for name, m in _sample(rng, lists(msgs, rng, q), k):
            w.bbsver(key, sig, m, tag=name)
        for name, s in _sample(rng, altered(sig, rng, q, other), k):
            w.bbsver(key, s, msgs, tag=name)
        w.bbsver("J" if key == "K" else "K", sig, msgs, tag="other key")
        w.bbsver(key, pre, msgs, tag="unfinished")
        if again is not None:
            sig2 = w.bbsobtain(u, key, again)
            if sig2 is not None:
                w.bbsver(key, sig2, msgs)
                w.bbsver(key, with_fields(sig, A=sig2.A), msgs, tag="A''")
                w.bbsver(key, with_fields(sig2, s=sig.s), msgs, tag="s''")
    # the issuer signs whatever it is given
    for com in (w.realm.point(G1, [0] * w.realm.d(G1)), w.realm.point(G1, [rng.randrange(q) for _ in range(w.realm.d(G1))])):
        s = w.bbssign("K", com)
        if s is not None:
            w.bbsver("K", s, [], tag="signed")
    # too many messages
    w.bbscommit("u", "K", [1] * (n + 1), zkp=rng.random() < 0.5, fresh=True)


def gens(w, key):
    return [w.realm.vec(g) for g in w.keys[key].generators]


def forged_requests(w, key, req, rng, q, n, k):
    """Requests whose proof is changed, or made for something else."""
    com, proof = req.com_message, req.com_nizk_proof
    g = gens(w, key)
    pts = [w.keys[key].generators[i] for i in (0, 1, 2)] + [req.com_message]
    for name, r in _sample(rng, mutations(proof.responses, rng, q), k):
        w.bbsblind(key, com, with_fields(proof, responses=r), tag="r:" + name)
    for name, c in _sample(rng, mutations(proof.challenge, rng, q), 2):
        w.bbsblind(key, com, with_fields(proof, challenge=c), tag="c:" + name)
    for p in rng.sample(pts, 2):
        w.bbsblind(key, com + p, proof, tag="com")
    w.bbsblind(key, com, None, tag="no proof")
    # a request containing g0, or an unknown base, proved as such
    m = len(proof.responses)
    bases = rng.choice([[g[0]] + g[2:m + 1], g[0:m], [(G1, [rng.randrange(q) for _ in range(w.realm.d(G1))])] + g[2:m + 1], g[1:m + 1]])
    if not all(any(b[1]) for b in bases):
        return
    names = ["y%d" % i for i in range(len(bases))]
    xs = [rng.randrange(q) for _ in bases]
    lhs = [0] * w.realm.d(G1)
    for x, b in zip(xs, bases):
        lhs = [(a + x * c) % q for a, c in zip(lhs, b[1])]
    tree = {"k": "dl", "lhs": (G1, lhs), "b": bases, "x": names, "how": "sum"}
    if not w.mk("req", tree, "eR", dict(zip(names, xs))):
        return
    lcom = w.realm.point(G1, lhs)
    msg = rng.choice(["", "", "other"])
    other = w.prove("req", None, msg)
    if other is not None:
        w.bbsblind(key, lcom, other, tag="other bases")
        w.bbsblind(key, com, other, tag="other request")
        h = w.hash("req", None)
        w.bbsblind(key, lcom, with_fields(other, stmt_hash=proof.stmt_hash), tag="other hash")
    # the statement of the request itself, with made-up commitments and responses
    true = {"k": "dl", "lhs": w.realm.vec(com), "b": g[1:m + 1], "x": ["m%d" % i for i in range(m)], "how": "sum"}
    if m + 1 <= len(g) and w.mk("true", true, "eT", {}):
        c0 = w.realm.point(G1, [rng.randrange(q) for _ in range(w.realm.d(G1))])
        rs = [Bn(rng.randrange(q)) for _ in range(m)]
        f = w.forge("true", None, c0, lambda c: rs, "")
        if f is not None:
            w.bbsblind(key, com, f, tag="forged")


# ------------------------------------------------------------------ possession
class Sig(object):
    """A signature on messages, ready to be described."""

    def __init__(self, w, key, msgs, sig, name):
        self.w, self.key, self.msgs, self.sig, self.name = w, key, msgs, sig, name
        self.g = gens(w, key)[:len(msgs) + 2]
        pk = w.keys[key].pk
        self.pk = pk
        self.W = w.realm.vec(pk.w)[1][0]
        self.hz = w.realm.vec(pk.h0)[1][0]

    def tree(self, names, sig, binding, key=None):
        w = self.w
        return {"k": "bbs", "x": [self.name + "e", self.name + "s"] + names, "binding": binding,
                "_pk": self.pk, "_sig": sig, "A": w.realm.vec(sig.A) if sig is not None else (G1, [0] * w.realm.d(G1)),
                "g": self.g, "w": int(self.W), "hz": int(self.hz), "gt": GT}


def issue(w, rng, key, msgs, u):
    zkp = rng.random() < 0.5
    req = w.bbscommit(u, key, msgs, zkp=zkp)
    if req is None:
        return None
    pre = w.bbssign(key, req.com_message)
    return w.bbsobtain(u, key, pre) if pre is not None else None


def nosig(t):
    if t["k"] in ("and", "or"):
        return dict(t, s=[nosig(s) for s in t["s"]])
    if t["k"] == "bbs":
        return dict(t, _sig=None, A=(G1, [0] * len(t["g"][0][1])))
    return t


def lin(w, g, terms):
    q = w.realm.q(g)
    v = [0] * w.realm.d(g)
    for x, b in terms:
        v = [(a + x * c) % q for a, c in zip(v, b[1])]
    return (g, v)


def dl(w, g, names, vals, rng, off=0):
    d, q = w.realm.d(g), w.realm.q(g)
    bs = [(g, [rng.randrange(1, q) for _ in range(d)]) for _ in names]
    lhs = lin(w, g, [(vals[n], b) for n, b in zip(names, bs)])
    if off:
        lhs = (g, [(lhs[1][0] + off) % q] + lhs[1][1:])
    return {"k": "dl", "lhs": lhs, "b": bs, "x": list(names), "how": "sum"}


def contexts(w, rng, S, S2, vals, sig, sig2):
    """Statements about a signature: list of (kind, tree, names of the values needed)."""
    names = ["m%d" % i for i in range(len(S.msgs))]
    b = rng.random() < 0.5
    one = S.tree(names, sig, b)
    out = [("alone", one, names)]
    g = rng.choice([1, 2, 4, 6])
    n = rng.choice(names)
    out.append(("and", {"k": "and", "s": [one, dl(w, g, [n], vals, rng)], "how": rng.choice(["op", "ctor"])}, names))
    two = S.tree(names, sig, True)
    e = rng.choice(two["x"])
    out.append(("bound", {"k": "and", "s": [dl(w, rng.choice([1, 4]), [e, "u"], vals, rng), two], "how": "op"}, names + ["u", e]))
    out.append(("or", {"k": "or", "s": [one, dl(w, 1, ["z"], vals, rng, off=1)], "how": "op"}, names))
    if S2 is not None:
        # the same messages below another signature, or some of them
        names2 = [rng.choice(names) if rng.random() < 0 else nm for nm in ["m%d" % i for i in range(len(S2.msgs))]]
        out.append(("two", {"k": "and", "s": [one, S2.tree(names2, sig2, rng.random() < 0.5)], "how": "op"}, sorted(set(names + names2))))
        out.append(("either", {"k": "or", "s": [S.tree(names, None if rng.random() < 0.5 else sig, b),
                                               S2.tree(names2, sig2, rng.random() < 0.5)], "how": "op"}, sorted(set(names + names2))))
    if len(names) > 1:
        same = S.tree([names[0]] * len(names), sig, b)
        out.append(("equal messages", same, [names[0]]))
    return out


def d_possess(w, rec, rng, k=8):
    """Proofs of possession."""
    q = w.realm.q(G1)
    w.new("possess")
    n = rng.randrange(1, 4)
    w.bbskey("K", n, own=rng.choice([0, 0, 2, 3]))
    w.bbskey("J", n, own=rng.choice([0, 0, 1, 4]))
    msgs = [value(rng, q) for _ in range(n)]
    sig = issue(w, rng, "K", msgs, "u")
    if sig is None:
        return
    S = Sig(w, "K", msgs, sig, "a")
    k2 = rng.choice(["K", "J"])
    msgs2 = msgs[:rng.randrange(1, n + 1)]
    sig2 = issue(w, rng, k2, msgs2, "v")
    S2 = Sig(w, k2, msgs2, sig2, "b") if sig2 is not None else None
    vals = {"m%d" % i: v for i, v in enumerate(msgs)}
    vals.update(ae=int(sig.e), u=rng.randrange(q), z=rng.randrange(q))
    vals["as"] = int(sig.s)
    pts = _points(w)
    kind, tree, names = rng.choice(contexts(w, rng, S, S2, vals, sig, sig2))
    true = kind != "equal messages" or len({m % q for m in msgs}) == 1
    msg = rng.choice(MESSAGES)
    given = {x: vals[x] for x in names}
    at_call = rng.random() < 0.4
    w.mk("p", tree, "eP", {} if at_call else given, tag=kind)
    w.mk("v", nosig(tree), "eV", {}, tag=kind)
    d = given if at_call else None
    if kind == "or" and rng.random() < 0.3:
        w.mark("p", "r.2")
    got = None
    for _ in range(3):
        nz = w.prove("p", d, msg)
        got = w.verify("v", nz, msg) if nz is not None else "E"
        if (got == "T") == true:
            break
    w.obs("bbs.exact", got == "T", true, tag=kind)
    w.session("p", "v", d)
    # changed proofs
    if nz is not None:
        for name, r in _sample(rng, mutations(nz.responses, rng, q, pts[:1]), k):
            w.verify("v", with_fields(nz, responses=r), msg, tag="r:" + name)
        for name, p in _sample(rng, mutations(nz.precommitment, rng, q, pts), k // 2):
            w.verify("v", with_fields(nz, precommitment=p), msg, tag="p:" + name)
        w.verify("v", nz, other_msg(msg, rng), tag="m")
        # a proof about other statements
        for i, (name, t2) in enumerate(others(w, rng, S, S2, nosig(tree))):
            if w.mk("w%d" % i, t2, "eW%d" % i, {}, tag=name):
                w.verify("w%d" % i, nz, msg, tag=name)
                h = w.hash("w%d" % i, nz.precommitment, tag=name)
                if h is not None:
                    w.verify("w%d" % i, with_fields(nz, stmt_hash=h), msg, tag=name + "+hash")
    # nobody without the signature or all messages
    w.mk("nosig", nosig(tree), "eN", given)
    nz2 = w.prove("nosig", None, msg)
    if nz2 is not None:
        w.verify("v", nz2, msg)
    w.session("nosig", "v", None, s="n")
    miss = dict(given)
    del miss[rng.choice([x for x in sorted(miss) if x[0] == "m"])]
    w.mk("miss", tree, "eM", miss)
    nz2 = w.prove("miss", None, msg)
    if nz2 is not None:
        w.verify("v", nz2, msg)
    # simulated
    for o in ("v", "p"):
        t = w.sim(o, rng.choice([None, 0, rng.randrange(2 ** 128)]))
        if t is None:
            continue
        w.simchk("v", t)
        z = as_proof(w, t)
        if z is not None:
            w.verify("v", z, msg, tag="simulated")
        for name, r in _sample(rng, mutations(t.responses, rng, q), 3):
            w.simchk("v", with_fields(t, responses=r), tag="r:" + name)
        for name, r in _sample(rng, mutations(t.precommitment, rng, q, pts), 2):
            w.simchk("v", with_fields(t, precommitment=r), tag="p:" + name)
    # a signature that is not one, or not on these messages
    for j in range(2):
        if rng.random() < 0.5:
            name, bad = rng.choice(altered(sig, rng, q, sig2))
            v2 = dict(given)
        else:
            name, bad = "messages", sig
            v2 = dict(given)
            x = rng.choice([m for m in names if m.startswith("m")])
            v2[x] = v2[x] + rng.choice([1, -1, 5])
        t2 = S.tree(["m%d" % i for i in range(n)], bad, rng.random() < 0.5)
        o = "bad%d" % j
        w.mk(o, t2, "eB%d" % j, {x: v2.get(x, vals[x]) for x in ["m%d" % i for i in range(n)]}, tag=name)
        w.mk(o + "v", nosig(t2), "eBv%d" % j, {})
        ver = sigver(w, "K", bad, [v2.get("m%d" % i, msgs[i]) for i in range(n)])
        for _ in range(3):
            nz = w.prove(o, None, msg)
            got = w.verify(o + "v", nz, msg, tag=name) if nz is not None else "E"
            if (got == "T") == ver:
                break
        w.obs("bbs.exact", got == "T", ver, tag=name)
        w.session(o, o + "v", None, s="b")


def sigver(w, key, sig, msgs):
    """Whether the vectors satisfy the equation of a signature (the specification checks it again)."""
    q = w.realm.q(G1)
    g = gens(w, key)
    W, hz = (w.realm.vec(getattr(w.keys[key].pk, f))[1][0] for f in ("w", "h0"))
    P = lin(w, G1, [(1, g[0]), (int(sig.s), g[1])] + list(zip(msgs, g[2:])))
    A = w.realm.vec(sig.A)[1]
    return all((a * (W + int(sig.e) * hz) - hz * p) % q == 0 for a, p in zip(A, P[1]))


def others(w, rng, S, S2, t):
    """Different statements (or the same one, differently written): list of (name, tree)."""
    out = []
    names = ["m%d" % i for i in range(len(S.msgs))]
    if t["k"] == "bbs":
        out.append(("binding", dict(t, binding=not t["binding"])))
        x = t["x"]
        if len(x) > 3:
            out.append(("permuted", dict(t, x=x[:2] + x[2:][::-1])))
            out.append(("merged", dict(t, x=x[:2] + [x[2]] * (len(x) - 2), binding=True)))
            out.append(("split", dict(t, x=x[:2] + ["k%d" % i for i in range(len(x) - 2)])))
            S3 = Sig(w, S.key, S.msgs[:-1], S.sig, "c")
            out.append(("fewer", S3.tree(names[:-1], None, True)))
        out.append(("e=s", dict(t, x=[x[0], x[0]] + x[2:], binding=True)))
        J = Sig(w, "J" if S.key == "K" else "K", S.msgs, S.sig, "c")
        out.append(("other key", J.tree(names, None, True)))
        out.append(("and", {"k": "and", "s": [t, dict(t, x=["e2", "s2"] + x[2:])], "how": "ctor"}))
    else:
        for i, s in enumerate(t["s"]):
            if s["k"] == "bbs":
                J = Sig(w, "J" if S.key == "K" else "K", S.msgs, S.sig, "c")
                if len(s["x"]) == len(names) + 2:
                    out.append(("other key", dict(t, s=t["s"][:i] + [J.tree(s["x"][2:], None, True)] + t["s"][i + 1:])))
                out.append(("unlinked", dict(t, s=t["s"][:i] + [dict(s, x=s["x"][:2] + ["k%d" % j for j in range(len(s["x"]) - 2)])] + t["s"][i + 1:])))
        out.append(("flip", dict(t, k="or" if t["k"] == "and" else "and")))
    return rng.sample(out, min(3, len(out)))


BBS_CHEATS = ["honest", "dsplit", "rsplit", "esplit", "ssplit", "A1zero", "free"]


def d_forge(w, rec, rng, k=5):
    """Provers without a signature who choose the precommitment."""
    q = w.realm.q(G1)
    w.new("forge")
    n = rng.randrange(1, 4)
    w.bbskey("K", n, own=rng.choice([0, 0, 2, 3]))
    msgs = [rng.randrange(q) for _ in range(n)]
    S = Sig(w, "K", msgs, None, "a")
    names = ["m%d" % i for i in range(n)]
    vals = {m: v for m, v in zip(names, msgs)}
    vals.update(ae=rng.randrange(q), u=rng.randrange(q), z=rng.randrange(q))
    vals["as"] = rng.randrange(q)
    kind, tree, _ = rng.choice(contexts(w, rng, S, None, vals, None, None))
    w.mk("p", tree, "eP", {}, tag=kind)
    if not w.mk("v", nosig(tree), "eV", {}, tag=kind):
        return
    for c in rng.sample(BBS_CHEATS, min(k, len(BBS_CHEATS))):
        differ = rng.random() < 0.4
        memo = {}

        def wit(nm, p, i):
            v = vals.get(nm, 3)
            if differ:
                v = memo.setdefault((nm, p, i), v + rng.choice([0, 0, 1, -1]))
            return v
        attack(w, "v", "p", tree, wit, rng, rng.choice([[("one", None)], OR_PLANS]), rng.choice(["shared", "shared", "fresh"]),
               cheat={"bbs": c}, tag=kind + " " + c)


DRIVERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}
