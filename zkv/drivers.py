"""
Drivers: each takes a generated scenario and exercises the real code with it through a World, which
records what happens.  Drivers choose inputs and adversaries; they do not judge outcomes.
"""
import copy
import random

from petlib.bn import Bn

from .concrete import Concrete, make, MESSAGES
from .world import unit

C128 = 2 ** 128


# ------------------------------------------------------------------ nested structures
def leaves(x, path=()):
    """(path, value) of every leaf and every container of a nested list/tuple/dict."""
    yield path, x
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))


def replaced(x, path, new):
    if not path:
        return new
    if isinstance(x, dict):
        d = dict(x)
        d[path[0]] = replaced(x[path[0]], path[1:], new)
        return d
    l = list(x)
    l[path[0]] = replaced(l[path[0]], path[1:], new)
    return l


def at(x, path):
    for k in path:
        x = x[k]
    return x


def is_point(x):
    return hasattr(x, "export")


def mutations(x, rng, q, other_points=()):
    """Single-position changes of a nested structure: list of (name, new structure)."""
    out = []
    ints = [p for p, v in leaves(x) if isinstance(v, Bn)]
    for p, v in leaves(x):
        def put(name, new):
            out.append((name, replaced(x, p, new)))
        if isinstance(v, Bn):
            put("+1", v + 1)
            put("-1", v - 1)
            put("+q", v + Bn.from_decimal(str(q)))
            put("neg", -v)
            put("0", Bn(0))
            put("1", Bn(1))
            put("+C", v + Bn(2).pow(128))
            put("-C", v - Bn(2).pow(128))
            put("rand", Bn.from_decimal(str(rng.randrange(q))))
            put("None", None)
            put("str", "x")
            o = at(x, rng.choice(ints))
            put("copy", o)
            put("list", [v])
        elif is_point(v):
            put("double", v + v)
            put("neg", (-1) * v)
            put("zero", 0 * v)
            for w in other_points:
                put("other", w)
            put("None", None)
            put("int", Bn(1))
        elif isinstance(v, (list, tuple)):
            l = list(v)
            if l:
                put("drop-last", l[:-1])
                put("drop-first", l[1:])
                put("dup-last", l + [l[-1]])
                put("dup-first", [l[0]] + l)
                put("empty", [])
            put("extra0", l + [Bn(0)])
            put("None", None)
            if len(l) > 1:
                i, j = rng.sample(range(len(l)), 2)
                l2 = list(l)
                l2[i], l2[j] = l2[j], l2[i]
                put("swap", l2)
                put("reverse", l[::-1])
            if len(l) > 1 and all(isinstance(y, Bn) for y in l):
                i, j = rng.sample(range(len(l)), 2)
                l2 = list(l)
                l2[i], l2[j] = l2[i] + 1, l2[j] - 1
                put("shift", l2)
                l2 = list(l)
                l2[i], l2[j] = l2[i] + Bn(2).pow(127), l2[j] + Bn(2).pow(127)
                put("shift-half", l2)
                put("merge", [sum(l[1:], l[0])] + [Bn(0)] * (len(l) - 1))
        elif isinstance(v, dict):
            for k in list(v):
                d = dict(v)
                del d[k]
                put("del", d)
            put("None", None)
        elif v is None:
            put("list", [])
            put("int", Bn(1))
            for w in list(other_points)[:1]:
                put("point", w)
    return out


def scale_all(x, f):
    """Apply f to every integer of a structure."""
    if isinstance(x, Bn):
        return f(x)
    if isinstance(x, (list, tuple)):
        return [scale_all(y, f) for y in x]
    return x


def with_fields(n, **kw):
    m = copy.copy(n)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def flip(h, rng):
    i = rng.randrange(len(h))
    return h[:i] + bytes([h[i] ^ (1 << rng.randrange(8))]) + h[i + 1:]


def other_msg(m, rng):
    """Another message, most often one that resembles it."""
    i = rng.randrange(len(m) + 1)
    near = [m + "!", m + " ", m + "\x00", " " + m, m + m[-1:], m[:i] + "\udc80" + m[i:], m[:i] + "\u200b" + m[i:], m[:i] + "\ufffd" + m[i:],
            m[:-1], m[1:], m[:-1] + "n", m[:-1] + "\x00", m[:i] + m[i + 1:], m.upper(), m.lower(), m.encode().hex(), m + m]
    x = rng.choice(near if rng.random() < 0.7 else MESSAGES)
    return x if x != m else m + "?"


# ------------------------------------------------------------------ tree helpers
def all_paths(t, p="r"):
    yield p, t
    if t["k"] in ("and", "or"):
        for i, s in enumerate(t["s"], 1):
            yield from all_paths(s, "%s.%d" % (p, i))


def or_branches(t):
    return [("%s.%d" % (p, i), s) for p, x in all_paths(t) if x["k"] == "or" for i, s in enumerate(x["s"], 1)]


def wrap(rec, tree):
    r = dict(rec)
    r["tree"] = tree
    return r


def edit(t, path, new):
    """Replace the subtree at path (r.1.2) of a recipe tree."""
    idx = [int(i) - 1 for i in path.split(".")[1:]]

    def go(t, idx):
        if not idx:
            return new
        t = dict(t)
        s = list(t["s"])
        s[idx[0]] = go(s[idx[0]], idx[1:])
        t["s"] = s
        return t
    return go(t, idx)


def leaf_kinds(t):
    return [x["k"] for _, x in all_paths(t)]


def falsify(rec, rng, only=None, prob=0.5):
    """Make some leaves of the scenario false."""
    t = rec["tree"]
    n = 0
    for p, x in list(all_paths(rec["tree"])):
        if only is not None and not any(p == o or p.startswith(o + ".") for o in only):
            continue
        if x["k"] == "dl" and rng.random() < prob:
            t = edit(t, p, dict(x, off=rng.choice([1, 2, 3, 5, 9])))
            n += 1
        elif x["k"] == "neq" and rng.random() < prob:
            if rng.random() < 0.5:
                t = edit(t, p, dict(x, zero=False, equal=True))
            else:
                t = edit(t, p, dict(x, off=rng.choice([1, 2, 3])))
            n += 1
        elif x["k"] in ("pow", "rng") and rng.random() < prob:
            t = edit(t, p, dict(x, off=rng.choice([1, 2, 3, 5])))
            n += 1
    return wrap(rec, t), n


# ------------------------------------------------------------------ drivers
def d_honest(w, rec, rng):
    """Completeness, interactive and not, and a wrong message."""
    w.new()
    c = make(w, rec)
    how = rng.choice(["prove", "prover"])
    n = w.prove("p", c.dict, c.msg, how=how)
    if n is not None:
        w.verify("v", n, c.msg, how=rng.choice(["verify", "verifier"]))
        w.verify("p", n, c.msg)
        w.verify("v", n, other_msg(c.msg, rng))
    if rng.random() < 0.2:
        w.protocol("p", "v", c.dict, **rng.choice(({}, {"verbose": False})))
    else:
        w.session("p", "v", c.dict)
    if rng.random() < 0.3:
        w.session("p", "p", c.dict, s="t")


def d_false(w, rec, rng):
    """Honest procedures on statements that are false for the secrets used."""
    rec, n = falsify(rec, rng)
    w.new("false%d" % n)
    c = make(w, rec)
    n = w.prove("p", c.dict, c.msg)
    if n is not None:
        w.verify("v", n, c.msg)
    if rng.random() < 0.2:
        w.protocol("p", "v", c.dict)
    else:
        w.session("p", "v", c.dict)


def _points(w):
    return [w.realm.point(1, unit(w.realm.d(1), 0)), w.realm.point(3, unit(w.realm.d(3), 0)),
            w.realm.point(1, unit(w.realm.d(1), 1 % w.realm.d(1), 2))]


def _sample(rng, ms, k, must=()):
    names = {}
    for m in ms:
        names.setdefault(m[0], []).append(m)
    out = [rng.choice(v) for n, v in names.items() if n in must]
    return out + rng.sample(ms, min(k, len(ms)))


def d_mutate(w, rec, rng, k=12):
    """Changes of every field of accepted proofs and transcripts."""
    w.new()
    c = make(w, rec)
    q = w.realm.q(1)
    pts = _points(w)
    n = w.prove("p", c.dict, c.msg)
    if n is not None:
        w.verify("v", n, c.msg)
        for name, r in _sample(rng, mutations(n.responses, rng, q, pts[:1]), k):
            w.verify("v", with_fields(n, responses=r), c.msg, tag="r:" + name)
        for name, p in _sample(rng, mutations(n.precommitment, rng, q, pts), max(2, k // 3)):
            w.verify("v", with_fields(n, precommitment=p), c.msg, tag="p:" + name)
        for name, ch in _sample(rng, mutations(n.challenge, rng, q), 3):
            w.verify("v", with_fields(n, challenge=ch), c.msg, tag="c:" + name)
        w.verify("v", with_fields(n, stmt_hash=flip(n.stmt_hash, rng)), c.msg, tag="h")
        if rng.random() < 0.3:
            w.verify("v", with_fields(n, stmt_hash=rng.choice([None, b"", n.stmt_hash[:-1], n.stmt_hash + b"\0"])),
                     c.msg, tag="h")
        w.verify("v", n, other_msg(c.msg, rng), tag="m")
        # two fields at once
        d = rng.randrange(1, 5)
        w.verify("v", with_fields(n, challenge=n.challenge + d,
                                  responses=scale_all(n.responses, lambda x: x + d)), c.msg, tag="cr")
        n2 = w.prove("p", c.dict, c.msg)
        if n2 is not None:
            w.verify("v", with_fields(n, responses=n2.responses), c.msg, tag="mix-r")
            w.verify("v", with_fields(n, challenge=n2.challenge), c.msg, tag="mix-c")
            w.verify("v", with_fields(n, challenge=n2.challenge, responses=n2.responses), c.msg, tag="mix-cr")
            w.verify("v", with_fields(n, precommitment=n2.precommitment), c.msg, tag="mix-p")
            w.verify("v", n2, c.msg)
            # responses of one proof spliced into the other
            lv = [p for p, _ in leaves(n.responses) if p]
            if lv:
                p = rng.choice(lv)
                try:
                    w.verify("v", with_fields(n, responses=replaced(n.responses, p, at(n2.responses, p))), c.msg, tag="splice")
                except (KeyError, IndexError, TypeError):
                    pass


def d_transcript(w, rec, rng, k=8):
    """Changes of interactive transcripts: commitment, responses, challenge answered."""
    w.new()
    c = make(w, rec)
    q = w.realm.q(1)
    pts = _points(w)

    def run(tag, pre_of=None, com_of=None, ch_of=None, r_of=None):
        got = w.pcom("p", "sp", c.dict)
        if got is None:
            return
        pre, (h, com) = got
        pre2 = pre_of(pre) if pre_of else pre
        com2 = com_of(com) if com_of else com
        ch = w.vchal("v", "sv", pre2, (h, com2), tag=tag)
        if "sv" not in w.sess or ch is None:
            return
        ch2 = ch_of(ch) if ch_of else ch
        r = w.presp("sp", ch2, tag=tag if ch_of is None else "x")
        if r is None:
            return
        w.vver("sv", r_of(r) if r_of else r, tag=tag)
        w.sess.pop("sv", None)

    run("honest")

    def one(kind):
        name = {}

        def f(x, must=()):
            ms = mutations(x, rng, q, pts)
            if not ms:   # nothing in it to change
                return x
            nm, y = rng.choice(ms)
            name["n"] = nm
            return y
        return f
    for _ in range(k):
        run("r", r_of=one("r"))
    for _ in range(max(2, k // 2)):
        run("com", com_of=one("com"))
    run("pre", pre_of=one("pre"))
    run("c", ch_of=lambda x: x + 1)
    run("c", ch_of=lambda x: Bn(rng.randrange(q)))
    run("replay", r_of=lambda r: r)
    # responses for another session's commitment and challenge
    a = w.pcom("p", "s1", c.dict)
    b = w.pcom("p", "s2", c.dict)
    # (two provers of one statement object: only without extended parts, see the limits in DESIGN.md)
    if a and b and not any(x in ("neq", "pow", "rng", "xpt", "xtup", "xdat", "xplain") for x in leaf_kinds(rec["tree"])):
        c1 = w.vchal("v", "v1", *a)
        c2 = w.vchal("v", "v2", *b)
        if c1 is not None and c2 is not None:
            r1, r2 = w.presp("s1", c1), w.presp("s2", c2)
            if r1 is not None and r2 is not None:
                w.vver("v2", r1, tag="crossed")
                w.vver("v1", r2, tag="crossed")
                w.vver("v1", r1)
                w.vver("v2", r2)


def d_simulate(w, rec, rng, k=4):
    """Simulation, with and without secrets; simulated transcripts as proofs; changed transcripts."""
    w.new()
    c = make(w, rec)
    q = w.realm.q(1)
    imposed = rng.choice([None, 0, 1, 7, q - 1, q, q + 1, C128 - 1, rng.randrange(C128), rng.randrange(C128), 2 ** 127])
    for o in ("v", "p"):
        for ch in (None, imposed):
            t = w.sim(o, ch)
            if t is None:
                continue
            w.simchk("v", t)
            w.simchk("p", t)
            n = as_proof(w, t)
            if n is not None:
                w.verify("v", n, c.msg, tag="simulated")
                w.verify("v", n, "", tag="simulated")
            for name, r in _sample(rng, mutations(t.responses, rng, q), k):
                w.simchk("v", with_fields(t, responses=r), tag="r:" + name)
            for name, r in _sample(rng, mutations(t.commitment, rng, q, _points(w)), k // 2):
                w.simchk("v", with_fields(t, commitment=r), tag="com:" + name)
            w.simchk("v", with_fields(t, challenge=t.challenge + 1), tag="c")
            for name, r in _sample(rng, mutations(t.precommitment, rng, q, _points(w)), 2):
                w.simchk("v", with_fields(t, precommitment=r), tag="p:" + name)
    # proving still works, and the transcripts of a real run pass the check
    n = w.prove("p", c.dict, c.msg)
    if n is not None:
        w.verify("v", n, c.msg)


def as_proof(w, t):
    from zksk.base import NIZK
    try:
        return NIZK(challenge=t.challenge, responses=t.responses, stmt_hash=t.stmt_hash,
                    precommitment=t.precommitment)
    except Exception:
        return None


def d_branches(w, rec, rng):
    """Missing secrets and marks: what can be proved is proved, what cannot is not."""
    t = rec["tree"]
    br = or_branches(t)
    names = [v["x"] for v in rec["vals"]]
    kinds = rng.choice(["mark", "missing", "both", "both"])
    rec = dict(rec)
    # secrets read when the statement is built can only be missing altogether
    missing = set()
    if kinds != "mark" and names:
        missing = set(rng.sample(names, rng.randrange(1, min(len(names), 4) + 1) if rng.random() < 0.7 else rng.randrange(len(names)) + 1))
    marks = []
    if kinds != "missing" and br:
        marks = [p for p, s in rng.sample(br, rng.randrange(1, min(len(br), 4) + 1) if rng.random() < 0.6 else max(1, len(br) - 1))]
    if rng.random() < 0.25:
        rec, _ = falsify(rec, rng, prob=0.3)
    w.new(kinds)
    c = Concrete(w.realm, rec)
    ctor, d = c.supply()
    ctor = {x: v for x, v in ctor.items() if x not in missing}
    if d is not None:
        d = {x: v for x, v in d.items() if x not in missing}
    pre = "named" if rec["named"] else "e"
    w.mk("p", c.tree, pre + "P", ctor)
    w.mk("v", c.tree, pre + "V", {})
    for p in marks:
        w.mark("p", p)
    for _ in range(3):
        n = w.prove("p", d, c.msg)
        if n is not None:
            w.verify("v", n, c.msg)
    w.session("p", "v", d)
    # without any secret
    n = w.prove("v", None, c.msg)
    if n is not None:
        w.verify("v", n, c.msg)
    # unmark again
    for p in marks[:1]:
        w.mark("p", p, False)
    n = w.prove("p", d, c.msg)
    if n is not None:
        w.verify("v", n, c.msg)


DRIVERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}


# ------------------------------------------------------------------ adversaries
def plain(t, rng, ext=0.0):
    """Replace primitives by representations of the same secrets (keeping some)."""
    if t["k"] in ("and", "or"):
        return dict(t, s=[plain(s, rng, ext) for s in t["s"]])
    if t["k"] == "dl" or rng.random() < ext:
        return t
    if t["k"] == "xplain":
        return plain(t["inner"], rng, ext)
    names = [t["x"]] + ([t["r"]] if "r" in t else [])
    return {"k": "dl", "g": t["g"], "t": [{"x": n, "b": rng.randrange(1, 8)} for n in names], "off": 0, "how": "sum"}


def occurrences(t, p="r"):
    """Occurrences of secrets in representations: (path, position, name)."""
    if t["k"] in ("and", "or"):
        for i, s in enumerate(t["s"], 1):
            for o in occurrences(s, "%s.%d" % (p, i)):
                yield o
    elif t["k"] == "xplain":
        for o in occurrences(t["inner"], p + ".i"):
            yield o
    elif t["k"] == "dl":
        for i, x in enumerate(t["t"]):
            yield p, i, x["x"]


class Cheat(Concrete):
    """A concretization in which every occurrence of a secret has its own value."""

    def __init__(self, realm, rec, rng, prob):
        self.wits = {}
        self.crng = rng
        self.prob = prob
        self.path = "r"
        self.only = None
        if prob and rng.random() < 0.5:
            # one occurrence only, one of a secret that occurs elsewhere if there is one
            occ = list(occurrences(rec["tree"]))
            many = [o for o in occ if sum(o[2] == n for _, _, n in occ) > 1] or occ
            late = [o for o in many if o[1] > 3]
            many = late if late and rng.random() < 0.5 else many
            if many:
                self.only = rng.choice(many)[:2]
        super(Cheat, self).__init__(realm, rec)

    def conc(self, t, p="r"):
        if t["k"] in ("and", "or"):
            return {"k": t["k"], "s": [self.conc(s, "%s.%d" % (p, i)) for i, s in enumerate(t["s"], 1)], "how": t.get("how", "ctor")}
        if t["k"] == "xplain":
            return {"k": "xplain", "cls": t["cls"], "val": t["val"], "inner": self.conc(t["inner"], p + ".i")}
        if t["k"] == "dl":
            g = t["g"]
            b = [self.base(g, x["b"]) for x in t["t"]]
            ws = []
            for i, x in enumerate(t["t"]):
                v = self.val[x["x"]]
                if (p, i) == self.only if self.only else self.crng.random() < self.prob:
                    v += self.crng.choice([1, -1, 2, self.crng.randrange(1, 10000)])
                self.wits[(p, i)] = v
                ws.append(v)
            lhs = self.lin(list(zip(ws, b)), g)
            return {"k": "dl", "b": b, "x": [x["x"] for x in t["t"]], "lhs": self.off(t, lhs), "how": t.get("how", "sum")}
        return super(Cheat, self).conc(t)

    def wit(self, n, p, i):
        return self.wits.get((p, i), self.val[n])


LOOKS = [("low", b) for b in (8, 16, 31, 32, 53, 63, 64, 64, 128, 256)] + [("high", 64), ("high", 300), ("near", 0)]


def d_cheat(w, rec, rng, prob=0.3, ext=0.5, k=3, plans=None):
    """Different witnesses at different occurrences of a secret; cheating in disjunctions."""
    from .evil import attack, OR_PLANS
    rec = wrap(rec, plain(rec["tree"], rng, ext))
    w.new("cheat")
    c = Cheat(w.realm, rec, rng, prob)
    pre = "named" if rec["named"] else "e"
    w.mk("p", c.tree, pre + "P", {})
    if not w.mk("v", c.tree, pre + "V", {}):
        return
    for _ in range(k):
        nonces = rng.choice(["fresh", "shared", "shared"])
        plan = rng.choice([[("one", None)], plans or OR_PLANS])
        tweak = None
        if rng.random() < 0.2:
            tweak = lambda r: equalize(r, rng)
        attack(w, "v", "p", c.tree, c.wit, rng, plan, nonces, msg=c.msg, tweak=tweak, tag="cheat")
    attack(w, "v", "p", c.tree, c.wit, rng, ("one", None), "fresh", msg=c.msg, tag="cut", cut=rng.choice(["end", "end", "any"]))
    if prob:
        look = rng.choice(LOOKS)
        attack(w, "v", "p", c.tree, c.wit, rng, ("one", None), rng.choice(["fresh", "shared"]), msg=c.msg, tag="look:%s%d" % look, look=look)


def equalize(r, rng):
    """Make some response equal to another."""
    pos = [p for p, v in leaves(r) if isinstance(v, Bn)]
    if len(pos) < 2:
        return r
    a, b = rng.sample(pos, 2)
    return replaced(r, a, at(r, b))


def d_orcheat(w, rec, rng, k=6):
    """False disjunctions, every branch simulated, sub-challenges of all kinds."""
    from .evil import attack, OR_PLANS
    rec = wrap(rec, plain(rec["tree"], rng, 0.3))
    rec, _ = falsify(rec, rng, prob=0.8)
    w.new("orcheat")
    c = Cheat(w.realm, rec, rng, 0)
    w.mk("p", c.tree, "eP", {})
    if not w.mk("v", c.tree, "eV", {}):
        return
    for plan in rng.sample(OR_PLANS, min(k, len(OR_PLANS))):
        attack(w, "v", "p", c.tree, c.wit, rng, plan, "shared", msg=c.msg, tag="or:" + plan[0])


DRIVERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}


# ------------------------------------------------------------------ statement variants
def concrete_paths(t, p=()):
    yield p, t
    if t["k"] in ("and", "or"):
        for i, s in enumerate(t["s"]):
            yield from concrete_paths(s, p + (i,))
    elif t["k"] == "xplain":
        yield from concrete_paths(t["inner"], p + ("i",))


def concrete_edit(t, p, new):
    if not p:
        return new
    t = dict(t)
    if p[0] == "i":
        t["inner"] = concrete_edit(t["inner"], p[1:], new)
    else:
        s = list(t["s"])
        s[p[0]] = concrete_edit(s[p[0]], p[1:], new)
        t["s"] = s
    return t


def secrets_of(t):
    out = []
    for _, x in concrete_paths(t):
        if x["k"] == "dl":
            out += x["x"]
        elif x["k"] in ("pow", "rng"):
            out += [x["x"], x["r"]]
        elif x["k"] in ("neq", "xpt", "xtup", "xdat"):
            out.append(x["x"])
    return sorted(set(out))


def rename(t, f):
    k = t["k"]
    t = dict(t)
    if k == "dl":
        t["x"] = [f(n) for n in t["x"]]
    elif k in ("and", "or"):
        t["s"] = [rename(s, f) for s in t["s"]]
    elif k == "xplain":
        t["inner"] = rename(t["inner"], f)
    else:
        for n in ("x", "r"):
            if n in t:
                t[n] = f(t[n])
    return t


def variants(t, realm, rng):
    """Other statements, and renamings of the same one: list of (name, tree)."""
    out = []
    names = secrets_of(t)
    # the same statement under other names
    perm = list(names)
    rng.shuffle(perm)
    out.append(("rename", rename(t, lambda n: "n_" + n)))
    m = dict(zip(names, perm))
    out.append(("permute", rename(t, lambda n: m[n])))
    if len(names) > 1:
        a, b = rng.sample(names, 2)
        out.append(("merge", rename(t, lambda n: b if n == a else n)))

    def bump(gp, i=None):
        g, v = gp
        v = list(v)
        i = rng.randrange(len(v)) if i is None else i
        v[i] = (v[i] + 1 + rng.randrange(realm.q(g) - 1)) % realm.q(g)
        return (g, v)

    for p, x in concrete_paths(t):
        def put(name, **kw):
            out.append((name, concrete_edit(t, p, dict(x, **kw))))
        k = x["k"]
        if k == "dl":
            put("lhs", lhs=bump(x["lhs"]))
            i = rng.randrange(len(x["b"]))
            put("base", b=x["b"][:i] + [bump(x["b"][i])] + x["b"][i + 1:])
            put("split", x=x["x"][:i] + [x["x"][i] + "_new"] + x["x"][i + 1:])
            put("other", x=x["x"][:i] + [rng.choice(names)] + x["x"][i + 1:])
            put("append", x=x["x"] + [rng.choice(names)], b=x["b"] + [x["b"][i]])
            if len(x["b"]) > 1:
                put("drop", x=x["x"][:i] + x["x"][i + 1:], b=x["b"][:i] + x["b"][i + 1:])
                put("reverse", x=x["x"][::-1], b=x["b"][::-1])
                j = (i + 1) % len(x["b"])
                b = list(x["b"])
                b[i], b[j] = b[j], b[i]
                put("swap-bases", b=b)
                xs = list(x["x"])
                xs[i], xs[j] = xs[j], xs[i]
                put("swap-secrets", x=xs)
            if x["lhs"][0] in (1, 2):
                o = 3 - x["lhs"][0]
                put("group", lhs=(o, x["lhs"][1]), b=[(o, v) for _, v in x["b"]])
            put("wrap", k="xplain", cls="Plain", val="ok", inner=x)
            # lhs and a base exchanged
            put("exchange", lhs=x["b"][i], b=x["b"][:i] + [x["lhs"]] + x["b"][i + 1:])
        elif k in ("and", "or"):
            s = x["s"]
            i, j = rng.sample(range(len(s)), 2)
            s2 = list(s)
            s2[i], s2[j] = s2[j], s2[i]
            put("swap-subs", s=s2)
            put("flip", k="or" if k == "and" else "and")
            put("dup", s=s + [s[i]])
            if len(s) > 2:
                put("drop-sub", s=s[:i] + s[i + 1:])
                put("nest", s=[{"k": k, "s": s[:2], "how": "ctor"}] + s[2:], how="ctor")
                put("nest-other", s=[{"k": "or" if k == "and" else "and", "s": s[:2], "how": "ctor"}] + s[2:], how="ctor")
            else:
                out.append(("only", concrete_edit(t, p, s[i])))
            if any(y["k"] == k for y in s):
                flat = []
                for y in s:
                    flat += y["s"] if y["k"] == k else [y]
                put("flatten", s=flat, how="ctor")
        elif k == "neq":
            put("bind", bind=not x["bind"])
            put("pairs", h0=x["h1"], H0=x["H1"], h1=x["h0"], H1=x["H0"])
            f = rng.choice(["h0", "H0", "h1", "H1"])
            put(f, **{f: bump(x[f])})
            put("x", x=rng.choice(names))
        elif k == "pow":
            put("n+1", n=x["n"] + 1)
            put("n-1", n=max(1, x["n"] - 1))
            f = rng.choice(["com", "g", "h"])
            put(f, **{f: bump(x[f])})
            put("gh", g=x["h"], h=x["g"])
        elif k == "rng":
            put("shift", a=x["a"] + 1, b=x["b"] + 1)
            put("grow", b=x["b"] + 1)
            if x["b"] - x["a"] > 1:
                put("shrink", a=x["a"] + 1)
            f = rng.choice(["com", "g", "h"])
            put(f, **{f: bump(x[f])})
        elif k == "xplain":
            put("cls", cls="Renamed")
            out.append(("unwrap", concrete_edit(t, p, x["inner"])))
        elif k in ("xpt", "xtup"):
            put("cls", cls="Renamed")
            put("kind", k="xtup" if k == "xpt" else "xpt")
            f = rng.choice(["g", "h"])
            put(f, **{f: bump(x[f])})
            put("x", x=rng.choice(names))
        elif k == "xdat":
            put("cls", cls="Renamed")
            f = rng.choice(["g", "h", "P"])
            put(f, **{f: bump(x[f])})
            put("form", form=rng.choice(["int", "list", "dict", "str", "bytes", "nest", "dict2", "neg", "huge"]))
            put("x", x=rng.choice(names))
    return out


def d_pairs(w, rec, rng, k=8):
    """Proofs of one statement presented for another."""
    w.new()
    c = make(w, rec)
    n = w.prove("p", c.dict, c.msg)
    vs = variants(c.tree, w.realm, rng)
    pick = [v for v in vs if v[0] in ("rename",)] + rng.sample(vs, min(k, len(vs)))
    for i, (name, t2) in enumerate(pick):
        o = "v%d" % i
        # the other statement has its own secrets, or those of the prover
        if not w.mk(o, t2, "e%d" % i, {}, tag=name):
            continue
        if n is not None:
            w.verify(o, n, c.msg, tag=name)
            h = w.hash(o, n.precommitment, tag=name)
            if h is not None:
                w.verify(o, with_fields(n, stmt_hash=h), c.msg, tag=name + "+hash")
        got = w.pcom("p", "s", c.dict)
        if got is None:
            continue
        pre, (h0, com) = got
        ch = w.vchal(o, "sv", pre, (h0, com), tag=name)
        if "sv" not in w.sess or ch is None:
            h = w.hash(o, pre, tag=name)
            if h is None:
                continue
            ch = w.vchal(o, "sv", pre, (h, com), tag=name + "+hash")
            if "sv" not in w.sess or ch is None:
                continue
        r = w.presp("s", ch, tag=name)
        if r is not None:
            w.vver("sv", r, tag=name)
        w.sess.pop("sv", None)


DRIVERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}


# ------------------------------------------------------------------ sessions
def d_sessions(w, rec, rng, steps=14):
    """
    Several sessions at once, with verifiers of one object (when it may have several), verifiers used
    again, commitments that must be refused, and verdicts asked at the wrong time.
    """
    w.new("sessions")
    c = make(w, rec)
    ext = any(t["k"] not in ("dl", "and", "or") for _, t in concrete_paths(c.tree))
    pre = "named" if rec["named"] else "e"
    coms, opened, nv = [], [], [0]      # commitments of provers; verifiers that sent a challenge

    def commit():
        s = "p%d" % len(coms)
        if ext and any(not x["done"] for x in coms):
            return
        got = w.pcom("p", s, c.dict)
        if got is not None:
            coms.append({"s": s, "got": got, "done": False, "r": None, "c": None})

    def verifier():
        nv[0] += 1
        if not ext:
            return rng.choice(["v", "v", "p"])
        o = "w%d" % nv[0]
        return o if w.mk(o, c.tree, pre + "W%d" % nv[0], {}) else None

    def challenge(x, o=None, s=None):
        o = o or verifier()
        if o is None:
            return
        reuse = s is not None
        s = s or "v%d" % nv[0]
        ch = w.vchal(o, s, x["got"][0], x["got"][1], reuse=reuse)
        if ch is not None and s in w.sess:
            y = {"o": o, "s": s, "x": x, "c": ch}
            opened[:] = [z for z in opened if z["s"] != s] + [y]
            return y

    def respond(y):
        x = y["x"]
        if x["done"] and ext:
            return
        r = w.presp(x["s"], y["c"])
        x["done"] = True
        if r is not None:
            y["r"] = r

    for i in range(steps):
        op = rng.choice(["commit", "challenge", "challenge", "respond", "verify", "verify", "refused", "refused", "again", "early", "cross"])
        if op == "commit" or not coms:
            commit()
        elif op == "challenge" or not opened:
            challenge(rng.choice(coms))
        elif op == "respond":
            y = rng.choice(opened)
            if "r" not in y:
                respond(y)
        elif op == "verify":
            y = rng.choice(opened)
            if "r" not in y:
                respond(y)
            if "r" in y:
                w.vver(y["s"], y["r"])
        elif op == "cross":
            # the response of another session, or one in which the challenge was another
            y = rng.choice(opened)
            rs = [z["r"] for z in opened if "r" in z and z is not y]
            if rs:
                w.vver(y["s"], rng.choice(rs), tag="cross")
            elif not (ext and y["x"]["done"]):
                r = w.presp(y["x"]["s"], y["c"] + 1)
                y["x"]["done"] = True
                if r is not None:
                    w.vver(y["s"], r, tag="other challenge")
        elif op == "again":
            # a verifier used for another session
            y = rng.choice(opened)
            challenge(rng.choice(coms), y["o"], y["s"])
        elif op == "early":
            o = verifier()
            x = rng.choice(coms)
            rs = [z["r"] for z in opened if "r" in z]
            if o is not None:
                w.vearly(o, "early%d" % i, x["got"][0], rng.choice(rs + [None]), tag="early")
        elif op == "refused":
            x = rng.choice(coms)
            p, (h, com) = x["got"]
            bad = rng.choice([(flip(h, rng), com), (b"", com), (None, com), (h[:31], com), (h + b"\0", com), None, (h,),
                              (flip(h, rng), (opened[0]["x"]["got"][1][1] if opened else com)), (h.hex(), com)])
            if opened and rng.random() < 0.8:
                y = rng.choice(opened)
                ch = w.vchal(y["o"], y["s"], y["x"]["got"][0], bad, tag="refused", skip_pre=True, reuse=True)
                if ch is not None and y["s"] in w.sess:
                    y["c"] = ch
                # the session goes on as it was
                r = y.get("r")
                if r is not None:
                    w.vver(y["s"], r, tag="after refused")
                # answers that suit the refused commitment and the challenge of the session
                others = [z for z in opened if z is not y and "r" in z]
                if not ext and "r" not in y:
                    r2 = w.presp(x["s"], y["c"])
                    if r2 is not None:
                        w.vver(y["s"], r2, tag="for the refused commitment")
                elif others:
                    w.vver(y["s"], others[0]["r"], tag="cross")
            else:
                o = verifier()
                if o is not None:
                    w.vchal(o, "r%d" % i, p, bad, tag="refused")
                    w.sess.pop("r%d" % i, None)
    if ext:
        incomplete(w, c, rng)


def holes(x):
    """A structure without one of its parts."""
    out = [None]
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            if y is not None:
                out += [type(x)(list(x[:i]) + [h] + list(x[i + 1:])) for h in holes(y)]
    return out


def incomplete(w, c, rng):
    """After a session, sessions of the same verifier that lack precommitments, or have those of another one."""
    last = None
    w.mk("iv", c.tree, "eIV", {})
    for i in range(3):
        w.mk("ip%d" % i, c.tree, "eIP%d" % i, c.supply()[0])
        got = w.pcom("ip%d" % i, "ip", c.dict)
        if got is None:
            return
        pre, com = got
        reuse = i > 0 and rng.random() < 0.5 and "iv" in w.sess
        if i:
            bad = rng.choice(holes(pre) + holes(pre) + [last[0]])
            com2 = rng.choice([com, last[1]])
            ch = w.vchal("iv", "iv", bad, com2, tag="incomplete", reuse=reuse)
            if ch is not None and "iv" in w.sess:
                w.vver("iv", last[2], tag="incomplete")
        ch = w.vchal("iv", "iv", pre, com, reuse=reuse)
        if ch is None or "iv" not in w.sess:
            return
        r = w.presp("ip", ch)
        if r is None:
            return
        w.vver("iv", r)
        last = (pre, com, r)


DRIVERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}
