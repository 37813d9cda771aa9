"""Drivers for particular properties: branches in use, expressions, compositions, histories."""
import random

from .concrete import Concrete, make, MESSAGES
from .drivers import (all_paths, edit, falsify, leaf_kinds, or_branches, other_msg, plain, wrap, mutations, with_fields,
                      _points, as_proof, C128)
from .world import unit


# ------------------------------------------------------------------ branches in use
def d_cover(w, rec, rng, extra=40):
    """Many sessions of a false disjunction: which branches are used."""
    t = plain(rec["tree"], rng)
    for p, x in list(all_paths(t)):
        if x["k"] == "dl":
            t = edit(t, p, dict(x, off=1 + rng.randrange(6)))
    br = or_branches(t)
    if not br:
        return
    rec = dict(wrap(rec, t), dict=False)
    w.new("cover")
    c = Concrete(w.realm, rec)
    ctor, _ = c.supply()
    names = sorted(ctor)
    for n in names:
        if rng.random() < 0.1 and len(ctor) > 1:
            del ctor[n]
    w.mk("p", c.tree, "eP", ctor)
    w.mk("v", c.tree, "eV", {})
    for p, s in br:
        if rng.random() < 0.15:
            w.mark("p", p)
    n = 30 * max(len(x["s"]) for _, x in all_paths(t) if x["k"] == "or") + extra
    for i in range(n):
        got = w.pcom("p", "s", None)
        if got is None:
            break
        ch = w.vchal("v", "sv", *got)
        if ch is None:
            break
        w.presp("s", ch, cover=True)
    w.emit("cover", o="p", tag="cover")


# ------------------------------------------------------------------ expressions
def d_expr(w, rec, rng, k=14):
    """Expressions built in arbitrary order with shared subexpressions, and statements made from them."""
    w.new("expr")
    g = rng.choice([1, 1, 1, 2, 3, 4, 5, 6])
    q, d = w.realm.q(g), w.realm.d(g)
    ec = g in w.realm.nid_of
    names = ["x", "y", "z", "u"]
    vals = {n: rng.choice([0, 1, -1, rng.randrange(q), rng.randrange(q) + q * rng.randrange(-3, 4), 2 ** 70]) for n in names}
    # (the secrets may have other values, first)
    if rng.random() < 0.6:
        w.setvals("eP", {n: rng.randrange(q) for n in names})
    else:
        w.setvals("eP", vals)

    def base():
        return (g, unit(d, rng.randrange(d), 1 + rng.randrange(q - 1))) if rng.random() < 0.9 else (g, [0] * d)
    terms = {}
    for i in range(k):
        x = "E%d" % i
        known = [n for n in terms if len(terms[n]) <= 6]
        r = rng.random()
        if r < 0.35 or not known:
            s, b = rng.choice(names), base()
            w.term(x, "eP", s, b, left=ec and rng.random() < 0.3)
            if x in w.exprs:
                terms[x] = [(s, b)]
        elif r < 0.85:
            a, b = rng.choice(known), rng.choice(known)
            w.sum(x, a, b, inplace=rng.random() < 0.2)
            if x in w.exprs:
                terms[x] = terms[a] + terms[b]
        else:
            n = rng.randrange(1, 5) if rng.random() < 0.85 else rng.choice([9, 12, 17, 24, 33, 48])
            ss, bs = [rng.choice(names) for _ in range(n)], [base() for _ in range(n)]
            if rng.random() < 0.15:
                bs = bs[:-1] if n > 1 and rng.random() < 0.5 else bs + [base()]
                w.wsum("F%d" % i, "eP", ss, bs)
                continue
            w.wsum(x, "eP", ss, bs)
            if x in w.exprs:
                terms[x] = list(zip(ss, bs))
        if rng.random() < 0.2 and x in terms:
            w.eval(x, "eP")
    for x in sorted(terms):
        if rng.random() < 0.5:
            w.eval(x, "eP")
    w.setvals("eP", vals)
    for x in rng.sample(sorted(terms), len(terms)):
        w.eval(x, "eP")
    for j, x in enumerate(rng.sample(sorted(terms), min(5, len(terms)))):
        v = [0] * d
        for s, b in terms[x]:
            v = [(a + vals[s] * c) % q for a, c in zip(v, b[1])]
        if not any(any(b[1]) for _, b in terms[x]):
            continue    # (the identities of all groups have one encoding)
        if not w.mkdl("d%d" % j, "eP", x, (g, v)):
            continue
        w.mk("v%d" % j, {"k": "dl", "lhs": (g, v), "b": [b for _, b in terms[x]], "x": [s for s, _ in terms[x]]}, "eV%d" % j)
        n = w.prove("d%d" % j, None, "")
        if n is not None:
            w.verify("v%d" % j, n)
        # after being used in a statement, still usable
        w.eval(x, "eP")
        w.sum("G%d" % j, x, rng.choice(sorted(terms)))
        w.eval(x, "eP")
        w.hash("d%d" % j, None)


# ------------------------------------------------------------------ compositions
def d_faults(w, rec, rng):
    """Compositions with and without faults: proofs are refused or accepted."""
    w.new("faults")
    c = make(w, rec)
    for i in range(2):
        n = w.prove("p", c.dict, c.msg)
        if n is not None:
            w.verify("v", n, c.msg)
    w.session("p", "v", c.dict)
    t = c.tree
    if rng.random() < 0.3:
        # one base, anywhere, from another group
        g = rng.choice([1, 2, 3, 4])
        vals = {n: rng.randrange(w.realm.q(g)) for n in "abcde"}
        terms = [(n, (g, unit(w.realm.d(g), rng.randrange(w.realm.d(g)), 1))) for n in rng.sample("abcde", rng.randrange(2, 6))]
        x = _dl(w, terms, vals)
        o = rng.choice([i for i in (1, 2, 3, 4) if i != g])
        i = rng.randrange(len(terms))
        x["b"] = x["b"][:i] + [(o, unit(w.realm.d(o), rng.randrange(w.realm.d(o)), 1))] + x["b"][i + 1:]
        if rng.random() < 0.3:
            x = {"k": rng.choice(["and", "or"]), "s": [x, _dl(w, terms, vals)], "how": "ctor"}
        w.mk("mixed", x, "eM", vals)
        n = w.prove("mixed", None, c.msg)
        if n is not None:
            w.verify("mixed", n, c.msg)
    if rng.random() < 0.4:
        # too few operands
        k = rng.choice(["and", "or"])
        ops = rng.choice([[], ["p"]])
        if ops:
            if w.comp("one", k, ops):
                n = w.prove("one", c.dict, c.msg)


def d_deepfaults(w, rec, rng):
    """A composition with a fault (or nearly) somewhere inside others: in any branch, at any place, within primitives."""
    w.new("deepfaults")
    g, o = rng.choice([(1, 2), (1, 3), (3, 1), (4, 3)])
    d, q = w.realm.d, w.realm.q
    vals = {n: rng.randrange(2, 100) % q(3) for n in "abcxyuvwst"}

    def leaf(ns, gg=g, off=0):
        return _dl(w, [(n, (gg, unit(d(gg), rng.randrange(d(gg)), 1))) for n in ns], vals, off)

    def comp(k, *s):
        s = list(s)
        rng.shuffle(s)
        return {"k": k, "s": s, "how": "ctor"}
    kind = rng.choice(["orders", "orders2", "reocc", "reocc2", "reoccnest", "none", "bothor"])
    if kind == "orders":
        core = comp(rng.choice(["and", "or"]), leaf("x"), leaf("x", o))
    elif kind == "orders2":
        core = comp(rng.choice(["and", "or"]), leaf("y"), comp(rng.choice(["and", "or"]), leaf("xa"), leaf("x", o)))
    elif kind == "reocc":
        core = comp("and", leaf("x"), comp("or", leaf("x"), leaf("y")))
    elif kind == "reocc2":
        core = comp("and", comp("or", leaf("a"), leaf("xb")), comp("or", leaf("x"), leaf("y")))
    elif kind == "reoccnest":
        core = comp("and", leaf("x"), comp("or", leaf("y"), comp("and", leaf("a"), leaf("xa"))))
    elif kind == "bothor":
        core = comp("or", leaf("x"), leaf("xy"))
    else:
        core = comp("and", leaf("x"), comp("or", leaf("a"), leaf("b")))
    # wrapped some times; fresh secrets beside it
    side = list("uvwst")
    wraps = rng.choice([1, 2, 2, 3, 3])
    whole = rng.randrange(wraps + 1)            # one primitive at most: primitives within primitives are not claimed
    for i in range(wraps):
        r = 0.35 + 0.65 * rng.random()
        if i == whole:
            core = {"k": "xplain", "cls": rng.choice(["Plain", "Simple"]), "val": "ok", "inner": core}
        elif side:
            others = [leaf([side.pop()]) for _ in range(rng.choice([1, 1, min(2, len(side))]))]
            core = comp("and" if r < 0.7 else "or", core, *others)
    # the prover may know only what is beside the fault
    known = dict(vals) if rng.random() < 0.5 else {n: vals[n] for n in "uvwst"}
    w.mk("p", core, "eP", known)
    w.mk("v", core, "eV", {})
    for _ in range(3):
        n = w.prove("p", None, "")
        if n is not None:
            w.verify("v", n, "")
    w.session("p", "v")


def _leaf(w, rng, names, g):
    d, q = w.realm.d(g), w.realm.q(g)
    n = rng.choice([1, 1, 2, 3])
    return [(rng.choice(names), (g, unit(d, rng.randrange(d), 1))) for _ in range(n)]


def _lhs(w, terms, vals, off=0):
    g = terms[0][1][0]
    q, d = w.realm.q(g), w.realm.d(g)
    v = [0] * d
    for s, b in terms:
        v = [(x + vals[s] * y) % q for x, y in zip(v, b[1])]
    v[off % d] = (v[off % d] + off) % q
    return (g, v)


def _dl(w, terms, vals, off=0):
    return {"k": "dl", "lhs": _lhs(w, terms, vals, off), "b": [b for _, b in terms], "x": [s for s, _ in terms],
            "how": "sum"}


def d_operators(w, rec, rng, k=7):
    """& and | on existing statements, reused operands, marks, later use of operands."""
    w.new("operators")
    names = ["x", "y", "z"]
    q = w.realm.q(1)
    vals = {n: rng.randrange(q) for n in names}
    w.setvals("eP", vals)
    # pools of secrets so that compositions are mostly sound
    trees = {}
    pools = [["x"], ["y"], ["z"], ["x", "y"], ["y", "z"]]
    for i in range(5):
        o = "o%d" % i
        kind = rng.random()
        off = rng.choice([0, 0, 0, 1])
        if kind < 0.7:
            t = _dl(w, _leaf(w, rng, rng.choice(pools), 1), vals, off)
        elif kind < 0.85:
            n = rng.choice(names)
            h0, h1 = (1, unit(w.realm.d(1), 0)), (1, unit(w.realm.d(1), 1 % w.realm.d(1)))
            H0 = _lhs(w, [(n, h0)], vals)
            H1 = _lhs(w, [(n, h1)], vals, 1)
            t = {"k": "neq", "h0": h0, "H0": H0, "h1": h1, "H1": H1, "x": n, "bind": rng.random() < 0.5}
        else:
            n = rng.choice(names)
            t = {"k": "xplain", "cls": "Plain", "val": "ok", "inner": _dl(w, _leaf(w, rng, [n], 1), vals, 0)}
        w.mk(o, t, "eP", vals)
        trees[o] = t
    marked = set()
    for i in range(k):
        o = "c%d" % i
        kk = rng.choice(["and", "or"])
        small = [x for x in trees if size(trees[x]) <= 5]
        m = rng.choice([2, 2, 2, 3])
        ops = [rng.choice(small) for _ in range(m)]
        via = rng.choice(["op", "op", "ctor"])
        if not w.comp(o, kk, ops, via=via):
            continue
        trees[o] = compose(trees, kk, ops, via)
        # a fresh statement with the same tree, in another environment
        w.mk("f%d" % i, dict(trees[o]), "eF%d" % i, {})
        n = w.prove(o, None, "")
        if n is not None:
            w.verify("f%d" % i, n, tag="fresh")
            w.verify(o, n, tag="same")
            h = w.hash("f%d" % i, n.precommitment)
            # a statement with the operands nested otherwise
            alt = {"k": kk, "s": [trees[x] for x in ops], "how": "ctor"}
            w.mk("g%d" % i, alt, "eG%d" % i, {})
            w.verify("g%d" % i, n, tag="nested")
        # use the operands and other objects afterwards
        for x in rng.sample(ops, 1) + [rng.choice(sorted(trees))]:
            r = rng.random()
            if r < 0.4:
                n2 = w.prove(x, None, "")
                if n2 is not None:
                    w.verify(x, n2, tag="operand")
            elif r < 0.6:
                w.sim(x)
            elif r < 0.75 and trees[x]["k"] == "or":
                p = "r.%d" % rng.randrange(1, len(trees[x]["s"]) + 1)
                w.mark(x, p)
            elif r < 0.85 and trees[x]["k"] in ("dl", "and", "or"):
                w.mark(x, "r", rng.random() < 0.7)
            else:
                w.session(x, x, None)
        n = w.prove(o, None, "")
        if n is not None:
            w.verify("f%d" % i, n, tag="again")


def d_hooks(w, rec, rng):
    """Verification with arguments for the hooks of user-defined primitives."""
    if any(k in ("neq", "pow", "rng", "bbs") for k in kinds(rec["tree"])):
        return   # (their hooks take none)
    t = rec["tree"]
    for p, x in list(all_paths(t)):
        if x["k"] in ("xplain", "xpt", "xtup", "xdat"):
            t = edit(t, p, dict(x, val=rng.choice(["ok", "ok", "arg", "argneed"])))
    rec = dict(rec, tree=t)
    w.new("hooks")
    c = make(w, rec)
    for i in range(2):
        n = w.prove("p", c.dict, c.msg)
        if n is None:
            break
        for strict in (False, True):
            w.verify("v", n, c.msg, how=rng.choice(["args", "kwargs"]), strict=strict)
        w.verify("v", n, c.msg)
        w.verify("v", n, c.msg + "+", how="args", strict=rng.random() < 0.5)
    for strict in (False, True, None):
        got = w.pcom("p", "s", c.dict)
        if got is None:
            break
        ch = w.vchal("v", "sv", *got)
        if ch is None:
            break
        r = w.presp("s", ch)
        word = "strict" if strict else "plain"
        w.vver("sv", r, **({} if strict is None else rng.choice([{"args": (word,)}, {"kwargs": {"policy": word}}])))


def d_wideor(w, rec, rng):
    """Disjunctions of many branches, of which few can be proved."""
    w.new("wideor")
    m = rng.choice([2, 3, 5, 6, 8, 9, 12, 16, 17, 20, 33])
    g = rng.choice([1, 1, 2, 4])
    q = w.realm.q(g)
    vals, subs = {}, []
    mine = []
    for i in range(m):
        ns = ["w%d_%d" % (i, j) for j in range(rng.choice([1, 1, 1, 2, 3]))]
        mine.append(ns)
        for n in ns:
            vals[n] = rng.randrange(q)
        leaves = [_dl(w, _leaf(w, rng, [n], g) + (_leaf(w, rng, ns, g) if rng.random() < 0.3 else []), vals) for n in ns]
        subs.append(leaves[0] if len(leaves) == 1 else {"k": "and", "s": leaves, "how": "ctor"})
    good = rng.sample(range(m), rng.choice([1, 1, 1, 2, min(3, m)]) if rng.random() < 0.9 else 0)
    t = {"k": "or", "s": subs, "how": "ctor"}
    at = "r"
    known = {n: vals[n] for i in good for n in mine[i]}
    marks = []
    for i in range(m):
        # branches that could be proved, but for a mark, or that nearly could
        r = rng.random()
        if i not in good and r < 0.2:
            known.update({n: vals[n] for n in mine[i]})
            marks.append(i)
        elif i not in good and r < 0.4 and len(mine[i]) > 1:
            known[mine[i][0]] = vals[mine[i][0]]
    r = rng.random()
    if r < 0.2:
        vals["o"] = known["o"] = rng.randrange(q)
        t, at = {"k": "and", "s": [_dl(w, _leaf(w, rng, ["o"], g), vals), t], "how": "ctor"}, "r.2"
    elif r < 0.35:
        vals["o"] = 1
        t, at = {"k": "or", "s": [t, _dl(w, _leaf(w, rng, ["o"], g), vals)], "how": "ctor"}, "r.1"
    late = rng.random() < 0.4
    w.mk("p", t, "eP", {} if late else known)
    w.mk("v", t, "eV", {})
    for i in marks:
        w.mark("p", "%s.%d" % (at, i + 1))
    for _ in range(4):
        n = w.prove("p", known if late else None, "")
        if n is not None:
            w.verify("v", n, "")
    w.session("p", "v", known if late else None)


def d_manysecrets(w, rec, rng):
    """Hundreds of different secrets that were given no names, some of them with equal values."""
    w.new("manysecrets")
    g = rng.choice([1, 1, 4])
    q, d = w.realm.q(g), w.realm.d(g)
    m = rng.choice([150, 200, 260])
    names = ["s%d" % i for i in range(m)]
    vals = {n: rng.choice((rng.randrange(q), 3)) for n in names}
    terms = [(n, (g, unit(d, rng.randrange(d), rng.randrange(1, q)))) for n in names]
    terms += [(rng.choice(names), (g, unit(d, rng.randrange(d), 1))) for _ in range(3)]
    size = rng.choice([len(terms), 25, 60])
    leaves = [_dl(w, terms[i:i + size], vals) for i in range(0, len(terms), size)]
    t = leaves[0] if len(leaves) == 1 else {"k": "and", "s": leaves, "how": "ctor"}
    late = rng.random() < 0.3
    w.mk("p", t, "eP", {} if late else vals)
    w.mk("v", t, "eV", {})
    n = w.prove("p", vals if late else None, "m")
    if n is not None:
        w.verify("v", n, "m")
    if rng.random() < 0.5:
        w.session("p", "v", vals if late else None)


def d_copies(w, rec, rng):
    """Marks and uses deep inside operands do not reach what was composed of them, nor the other way round."""
    from .concrete import Concrete
    w.new("copies")
    c = Concrete(w.realm, dict(rec, dict=False))
    vals = dict(c.big)
    vals["ct"] = 5
    if not w.mk("a", c.tree, "eP", vals):
        return
    t = _dl(w, [("ct", (1, unit(w.realm.d(1), 0)))], vals)
    w.mk("b", t, "eP", vals)
    trees = {"a": c.tree, "b": t}

    def comp(o, k, ops, via):
        if w.comp(o, k, ops, via=via):
            trees[o] = compose(trees, k, ops, via)
    comp("c1", rng.choice(["or", "and"]), rng.choice([["a", "b"], ["b", "a"]]), rng.choice(["op", "ctor"]))
    # (primitives of users keep their own secrets in the object: their occurrences are not repeated)
    again = [] if any(k in ("xpt", "xtup", "xdat") for k in kinds(c.tree)) else [["a", "a"], ["a", "b", "a"]]
    comp("c2", rng.choice(["or", "or", "and"]), rng.choice([["a", "b"]] + again), rng.choice(["op", "ctor", "ctor"]))
    if "c1" in trees:
        comp("c3", "or", ["c1", "b"], "ctor")
    objs = [o for o in ("a", "c1", "c2", "c3") if o in trees]

    def ors(t, p="r"):
        if t["k"] in ("and", "or"):
            if t["k"] == "or":
                yield p, len(t["s"])
            for i, s in enumerate(t["s"], 1):
                for x in ors(s, "%s.%d" % (p, i)):
                    yield x

    def check(o):
        n = w.prove(o, None, "m")
        if n is not None:
            w.verify(o, n, "m")
        return n
    for _ in range(3):
        o = rng.choice(objs)
        places = list(ors(trees[o]))
        if places:
            p, n = rng.choice(places)
            on = rng.random() < 0.75
            keep = rng.choice([None, None, rng.randrange(1, n + 1)])
            for i in range(1, n + 1):
                if i != keep:
                    w.mark(o, "%s.%d" % (p, i), on)
        if rng.random() < 0.3:
            w.sim(rng.choice(objs))
        for x in objs:
            check(x)
    for x in objs:
        check(x)


def texts(rng):
    """Messages that resemble each other in every way we can think of."""
    out = list(MESSAGES)
    out += ["\u00c5", "\u212b", "A\u030a", "\ufb01", "fi", "ﬁ", "\uff11", "1", "01", "1.0", "+1", "\u0661", "ss", "\u00df", "SS", "\u1e9e", "I", "i", "\u0131", "\u0130",
            "\r\n", "\n", "\r", "\u2028", "\t", " ", "  ", "\u00a0", "\u200b", "\ufeff", "\ufeffa", "a\u200d", "\x00", "\x00\x00", "\x00a", "\U0001f600", "\ud83d\ude00",
            "\ud83d", "\ude00", "\udc80", "\udcff", "\ufffd", "?", "\\u00e9", "&eacute;", "%C3%A9", "b'a'", "'a'", "None", "none", "message ", "messag", "Message", "\u0000message"]
    for n in (31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1023, 1024, 4096, 65536):
        b = "".join(rng.choice("abcdefgh") for _ in range(n))
        i = rng.randrange(n)
        out += [b, b + "a", b[:-1], b[:i] + "X" + b[i + 1:], b[::-1]]
    return sorted(set(out))


def d_messages(w, rec, rng):
    """Every message of a list against every other one."""
    w.new("messages")
    g, d = 1, w.realm.d(1)
    vals = {"x": 5, "y": 7}
    B = [(g, unit(d, i % d)) for i in range(2)]
    t = _dl(w, [("x", B[0])], vals)
    if rng.random() < 0.5:
        t = {"k": "or", "s": [t, _dl(w, [("y", B[1])], vals)], "how": "ctor"}
    w.mk("p", t, "eP", {"x": 5})
    w.mk("v", t, "eV", {})
    T = texts(rng)
    T = rng.sample(T, 34) + ["\u00e9", "e\u0301"]
    # (text that has no encoding cannot be signed, but may be shown to a verifier)
    proofs = [(m, w.prove("p", None, m)) for m in T if not any(0xd800 <= ord(x) < 0xe000 for x in m)]
    for m, n in proofs:
        if n is None:
            continue
        for m2 in T:
            w.verify("v", n, m2)
        for m2 in rng.sample(T, 3):
            w.verify("v", n, m2, how="verifier")


def kinds(t):
    return [k for s in t["s"] for k in kinds(s)] if t["k"] in ("and", "or") else [t["k"]]


def size(t):
    return 1 + sum(size(s) for s in t["s"]) if t["k"] in ("and", "or") else 1


def compose(trees, k, ops, via):
    s = []
    for x in ops:
        t = trees[x]
        if via == "op" and t["k"] == k:
            s += t["s"]
        else:
            s.append(t)
    return {"k": k, "s": s, "how": "ctor"}


DRIVERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("d_")}
