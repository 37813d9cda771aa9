"""
Malicious provers for the transparent groups.  They know discrete logarithms (vectors), may use a
different witness at every occurrence of a secret, simulate any branches, choose precommitments and
sub-challenges freely, and so satisfy every equation they can.
"""
from petlib.bn import Bn

from . import custom

C = 2 ** 128


def bn(x):
    return Bn.from_decimal(str(int(x)))


def _crt(a, q):
    """Smallest shift t with a + t * C = 0 mod q, as t."""
    return (-a * pow(C % q, -1, q)) % q


class Adv(object):
    def __init__(self, realm, rng, orplan=None, nonces="fresh", look=None, cut=None):
        self.look, self.seen, self.cut = look, {}, cut
        self.R = realm
        self.rng = rng
        self.orplan = orplan
        self.nonces = nonces
        self.shared = {}
        self.counter = 0

    # vectors
    def q(self, g):
        return self.R.q(g)

    def lin(self, ks, pts, g):
        q = self.q(g)
        v = [0] * self.R.d(g)
        for k, p in zip(ks, pts):
            v = [(a + k * c) % q for a, c in zip(v, p[1])]
        return (g, v)

    def fresh(self, p):
        self.counter += 1
        return "%s#%d" % (p, self.counter)

    # --------------------------------------------------- elaboration
    def dl(self, b, x, wit, lhs=None):
        g = b[0][0]
        return {"k": "dl", "b": b, "x": x, "wit": wit, "lhs": lhs if lhs is not None else self.lin(wit, b, g), "g": g}

    def elab(self, t, wit, p="r", cheat=None):
        """(precommitment over vectors, node); wit(name, path, i) is the value at an occurrence."""
        k = t["k"]
        rng = self.rng
        cheat = cheat or {}
        if k == "dl":
            return None, self.dl(t["b"], t["x"], [wit(n, p, i) for i, n in enumerate(t["x"])], t["lhs"])
        if k in ("and", "or"):
            subs = [self.elab(s, wit, "%s.%d" % (p, i), cheat) for i, s in enumerate(t["s"], 1)]
            pre = [s[0] for s in subs]
            return (None if all(x is None for x in pre) else pre), {"k": k, "s": [s[1] for s in subs]}
        if k == "neq":
            g0, g1 = t["h0"][0], t["h1"][0]
            q = self.q(g0)
            x = wit(t["x"], p, 0)
            a, b = self.fresh("a"), self.fresh("b")
            how = cheat.get("neq", "honest")
            al = 0 if how == "identity" else rng.randrange(1, q)
            be = (-al) % q
            al = al * x % q
            pre = self.lin([al, be], [t["h1"], t["H1"]], g1)
            if how == "other":
                pre = self.lin([1 + rng.randrange(q - 1)], [t["h1"]], g1)
            d1 = self.dl([t["h0"], t["H0"]], [a, b], [al, be], (g0, [0] * self.R.d(g0)))
            d2 = self.dl([t["h1"], t["H1"]], [a, b], [al, be], pre)
            if how == "split":   # different (a, b) in the two parts
                a2 = rng.randrange(q)
                b2 = rng.randrange(q)
                pre = self.lin([a2, b2], [t["h1"], t["H1"]], g1)
                d2 = self.dl([t["h1"], t["H1"]], [a, b], [a2, b2], pre)
            s = [d1, d2]
            if t["bind"]:
                s.append(self.dl([t["h0"]], [t["x"]], [x], t["H0"]))
            return pre, {"k": "and", "s": s}
        if k == "pow":
            return self.power(t, wit(t["x"], p, 0), wit(t["r"], p, 1), cheat.get("pow", "honest"))
        if k == "rng":
            return self.range(t, wit, p, cheat.get("pow", "honest"))
        if k == "xplain":
            _, node = self.elab(t["inner"], wit, p + ".i", cheat)
            return [], node
        if k == "bbs":
            return self.bbs(t, wit, p, cheat.get("bbs", "honest"))
        if k in ("xpt", "xtup"):
            tn = self.fresh("t")
            x = wit(t["x"], p, 0)
            tv = rng.randrange(self.q(t["g"][0]))
            if cheat.get("ext") == "zero":
                x, tv = 0, 0
            P = self.lin([x, tv], [t["g"], t["h"]], t["g"][0])
            if k == "xpt":
                return P, self.dl([t["g"], t["h"]], [t["x"], tn], [x, tv], P)
            return [P, ["label", 7]], {"k": "and", "s": [
                self.dl([t["g"], t["h"]], [t["x"], tn], [x, tv], P), self.dl([t["h"], t["g"]], [tn, t["x"]], [tv, x], P)]}
        if k == "xdat":
            tn = self.fresh("t")
            x = wit(t["x"], p, 0)
            m = rng.randrange(3)
            P = self.lin([1, m], [t["P"], t["h"]], t["g"][0])
            return custom.encode_num(t["form"], m), self.dl([t["g"], t["h"]], [t["x"], tn], [x, m], P)
        raise ValueError(k)

    def bbs(self, t, wit, p, how):
        """No signature is needed by somebody who knows the issuer's exponent; how is the cheat."""
        rng = self.rng
        g, W, hz, gt = t["g"], t["w"], t["hz"], t["gt"]
        q = self.q(g[0][0])
        x = t["x"]
        v = [wit(n, p, i) % q for i, n in enumerate(x)]
        e = v[0]
        while (W + e * hz) % q == 0:
            e = (e + 1) % q
        r1, r2 = rng.randrange(q), rng.randrange(q)
        if how == "A1zero":
            r1, r2 = 0, 0
        d1, d2 = r1 * e % q, r2 * e % q
        A1 = self.lin([r1, r2], g[1:3], g[0][0])
        # values used in the third part
        e3, r3, d3, s3 = e, r1, d1, v[1]
        if how == "dsplit":
            d3 = rng.randrange(q)
        elif how == "rsplit":
            r3 = rng.randrange(q)
        elif how == "esplit":
            e3 = (e + 1 + rng.randrange(q - 1)) % q
            if (W + e3 * hz) % q == 0:
                e3 = e
        elif how == "ssplit":
            s3 = rng.randrange(q)
        P = self.lin([hz, r3 * W + d3 * hz] + [s3 * hz] + [m * hz for m in v[2:]], [g[0], g[2], g[1]] + g[2:len(x)], g[0][0])
        inv = pow((W + e3 * hz) % q, -1, q)
        A2 = (g[0][0], [inv * y % q for y in P[1]])
        if how == "free":
            A2 = (g[0][0], [rng.randrange(q) for _ in A2[1]])
        mul = lambda kk, pt: (gt, [kk * y % q for y in pt[1]])
        zero = (g[0][0], [0] * len(g[0][1]))
        nm = [self.fresh(z) for z in ("r1", "r2", "d1", "d2")]
        n1 = self.dl([g[1], g[2]], [nm[0], nm[1]], [r1, r2], A1)
        n2 = self.dl([g[1], g[2], (A1[0], [-y % q for y in A1[1]])], [nm[2], nm[3], x[0]], [d1, d2, e], zero)
        lhs = (gt, [(W * a - hz * b) % q for a, b in zip(A2[1], g[0][1])])
        n3 = self.dl([mul(-hz, A2), mul(W, g[2]), mul(hz, g[2])] + [mul(hz, b) for b in g[1:len(x)]],
                     [x[0], nm[0], nm[2]] + x[1:], [e3, r3, d3, s3] + v[2:], lhs)
        return {"A1": A1, "A2": A2}, {"k": "and", "s": [n1, n2, n3]}

    def power(self, t, v, r, how, com=None, n=None):
        """Bit commitments for value v with randomness r; how is the cheat."""
        rng = self.rng
        G, H, g = t["g"], t["h"], t["g"][0]
        q = self.q(g)
        n = t["n"] if n is None else n
        com = t["com"] if com is None else com
        m = n
        vv = v
        if how in ("more", "long"):
            m = n + rng.randrange(1, 3)
            vv = v % (2 ** m)
        elif how == "fewer" and n > 1:
            m = n - 1
            vv = v % (2 ** m)
        elif how in ("wrap", "norand"):
            vv = v % (2 ** n)
        if how == "digit":
            # digits may be anything; they recombine correctly
            digits = [rng.randrange(0, 3) for _ in range(m)]
            rest = (vv - sum(d * 2 ** i for i, d in enumerate(digits[1:], 1))) % q
            digits[0] = rest
        else:
            digits = [(vv >> i) & 1 for i in range(m)] if vv >= 0 else [rng.randrange(2) for _ in range(m)]
        rs = [rng.randrange(q) for _ in range(m)]
        Cs = [self.lin([d, x], [G, H], g) for d, x in zip(digits, rs)]
        rand = (sum(x * 2 ** i for i, x in enumerate(rs)) - r) % q
        if how == "norand":
            rand = rng.randrange(q)
        names = [self.fresh("r") for _ in range(m)]
        bits = []
        for d, x, nm, Ci in zip(digits, rs, names, Cs):
            Cm = self.lin([1, -1], [Ci, G], g)
            bits.append({"k": "or", "s": [self.dl([H], [nm], [x], Ci), self.dl([H], [nm], [x], Cm)],
                         "plan": ("one", d) if d in (0, 1) else None})
        if how == "long":
            bits = bits[:n]
        node = bits[0] if len(bits) == 1 else {"k": "and", "s": bits}
        return {"Cs": Cs, "rand": rand}, node

    def range(self, t, wit, p, how):
        G, H, g = t["g"], t["h"], t["g"][0]
        v, r = wit(t["x"], p, 0), wit(t["r"], p, 1)
        a, b = t["a"], t["b"]
        n = max(1, (b - a - 1).bit_length())
        off = 2 ** n - (b - a)
        d0 = self.dl([G, H], [t["x"], t["r"]], [v, r], t["com"])
        hows = [how, how] if self.rng.random() < 0.3 else self.rng.choice([[how, "honest"], ["honest", how]])
        p1, n1 = self.power(t, v - a, r, hows[0], n=n)
        p2, n2 = self.power(t, v - a + off, r, hows[1], n=n)
        return [None, p1, p2], {"k": "and", "s": [d0, n1, n2]}

    # ------------------------------------------------------ protocol
    def nonce(self, name, g):
        if self.nonces == "fresh":
            return self.rng.randrange(self.q(g))
        return self.shared.setdefault((name, self.q(g)), self.rng.randrange(self.q(g)))

    def simulate(self, n, c, resp=None):
        """(commitment, response) accepted for challenge c."""
        if n["k"] == "dl":
            q = self.q(n["g"])
            resp = {} if resp is None else resp
            rs = [resp.setdefault((x, q), self.rng.randrange(q)) for x in n["x"]]
            return self.lin(rs + [-c], n["b"] + [n["lhs"]], n["g"]), [bn(r) for r in rs]
        if n["k"] == "and":
            resp = {} if resp is None else resp
            out = [self.simulate(s, c, resp) for s in n["s"]]
            return [o[0] for o in out], [o[1] for o in out]
        cs = [self.rng.randrange(C) for _ in n["s"]]
        cs[-1] = (c - sum(cs[:-1])) % C
        out = [self.simulate(s, ci) for s, ci in zip(n["s"], cs)]
        return [o[0] for o in out], [[bn(x) for x in cs], [o[1] for o in out]]

    def answers(self, n, rs, q):
        """Responses, represented so that different ones for one secret look alike."""
        out = []
        for x, r in zip(n["x"], rs):
            first = self.seen.setdefault((x, q), r)
            if self.look and q % 2 and first % q != r:
                kind, bits = self.look
                if kind == "low":      # the last bits agree
                    r += q * ((first - r) * pow(q, -1, 2 ** bits) % 2 ** bits)
                elif kind == "high":   # the first bits agree
                    t = q << bits
                    r = r + t if (first - r) % 2 else r - t
                elif kind == "near":   # close to the first one
                    r += q * ((first - r) // q)
            out.append(bn(r))
        return out

    def start(self, n):
        """(commitment, function from the challenge to the responses)"""
        rng = self.rng
        if n["k"] == "dl":
            q = self.q(n["g"])
            ks = [self.nonce(x, n["g"]) for x in n["x"]]
            return self.lin(ks, n["b"], n["g"]), lambda c: self.answers(n, [(k + c * w) % q for k, w in zip(ks, n["wit"])], q)
        if n["k"] == "and":
            subs = n["s"]
            if self.cut and rng.random() < 0.7:    # only some of the parts are proved
                subs = subs[:rng.randrange(len(subs))] if self.cut == "end" else rng.sample(subs, rng.randrange(len(subs)))
            parts = [self.start(s) for s in subs]
            return [x[0] for x in parts], lambda c: [f(c) for _, f in parts]
        plan = n.get("plan") or self.orplan
        if plan is None or (callable(plan)):
            plan = ("one", rng.randrange(len(n["s"])))
        if isinstance(plan, list):
            plan = rng.choice(plan)
        if plan[0] in ("one", "off"):
            i = plan[1] if plan[0] == "one" and plan[1] is not None and plan[1] < len(n["s"]) else rng.randrange(len(n["s"]))
            cs = [rng.randrange(C) for _ in n["s"]]
            sims = [self.simulate(s, ci) for s, ci in zip(n["s"], cs)]
            saved = self.shared
            self.shared = {}
            com, f = self.start(n["s"][i])
            self.shared = saved
            coms = [x[0] for x in sims]
            coms[i] = com

            def respond(c):
                mine = (c - sum(x for j, x in enumerate(cs) if j != i)) % C
                if plan[0] == "off":   # all is right but the sum
                    mine = (mine + (rng.choice([1, 1, 3, C - 1]) << rng.randrange(128))) % C
                ch = [bn(mine) if j == i else bn(x) for j, x in enumerate(cs)]
                return [ch, [f(mine) if j == i else s[1] for j, s in enumerate(sims)]]
            return coms, respond
        # every branch simulated
        cs = [rng.randrange(C) for _ in n["s"]]
        if plan[0] == "zero":
            cs = [0 for _ in n["s"]]
        sims = [self.simulate(s, ci) for s, ci in zip(n["s"], cs)]

        def respond(c):
            ch = list(cs)
            rest = (c - sum(cs)) % C
            kind = plan[0]
            last = len(cs) - 1
            if kind == "extra":
                ch = ch + [rest]
            elif kind == "extra-first":
                ch = [rest] + ch
            elif kind == "sum-last":       # the last challenge is adjusted, not the responses
                ch[last] = (ch[last] + rest) % C
            elif kind in ("high", "neg"):  # congruent to what was simulated modulo the orders, and right modulo C
                q = 1
                for g in _groups(n["s"][last]):
                    if q % self.q(g):
                        q *= self.q(g)
                if q % 2 == 0:
                    return [[bn(x) for x in ch], [s[1] for s in sims]]
                base = (ch[last] + rest) % C
                ch[last] = base + C * _crt(base - cs[last], q)
                if kind == "neg":
                    ch[last] -= C * q
            elif kind == "drop":
                ch = ch[:-1]
            elif kind == "same":
                ch = [c % C for _ in ch]
            elif kind == "only-c":
                ch = [c % C]
            elif kind == "empty":
                ch = []
            elif kind == "pad":            # 0 for all but the last, which is c
                ch = [0] * last + [c % C]
            return [[bn(x) for x in ch], [s[1] for s in sims]]
        return [x[0] for x in sims], respond

    # ----------------------------------------------------- to the library
    def real(self, x):
        """Vectors to points, integers to big numbers."""
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], list):
            return self.R.point(x[0], x[1])
        if isinstance(x, dict):
            return {k: self.real(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.real(y) for y in x]
        if isinstance(x, int) and not isinstance(x, bool):
            return bn(x)
        return x


def _groups(n):
    if n["k"] == "dl":
        return {n["g"]}
    return set().union(*[_groups(s) for s in n["s"]])


OR_PLANS = [("one", None), ("extra",), ("extra-first",), ("sum-last",), ("high",), ("neg",), ("drop",), ("same",),
            ("only-c",), ("empty",), ("pad",), ("zero",), ("sim",), ("off",), ("off",)]


def attack(w, verifier, prover, tree, wit, rng, orplan=None, nonces="fresh", cheat=None, msg="", tag="", tweak=None,
           modes=("fs", "live"), look=None, cut=None):
    """Run one malicious prover against the verifier object, by Fiat-Shamir and interactively."""
    for mode in modes:
        a = Adv(w.realm, rng, orplan, nonces, look, cut)
        pre, node = a.elab(tree, wit, cheat=cheat)
        com, respond = a.start(node)
        rpre, rcom = a.real(pre), a.real(com)
        if rpre is not None and tree["k"] == "xtup":
            rpre = [rpre[0], ["label", 7]]

        def answer(c):
            a.seen = {}
            r = respond(int(c))
            return tweak(r) if tweak else r
        if mode == "fs":
            n = w.forge(prover, rpre, rcom, answer, msg, tag=tag)
            if n is not None:
                w.verify(verifier, n, msg, tag=tag)
        else:
            h = w.hash(verifier, rpre)
            if h is None:
                continue
            c = w.vchal(verifier, "ev", rpre, (h, rcom), tag=tag)
            if "ev" not in w.sess or c is None:
                continue
            w.vver("ev", answer(c), tag=tag)
            w.sess.pop("ev", None)
