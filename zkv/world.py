"""
Drives the real zksk code through its public interface and records what it does.

A World owns named statement objects, secrets, sessions and the trace: one event per public call,
with its arguments and its outcome.  It predicts nothing: verdicts are left to the specification.
"""
import contextlib
import io
import signal
import sys
import warnings

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True

from . import proj

OP_TIMEOUT = 30


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout()


@contextlib.contextmanager
def guarded():
    """Bounds the time of one operation and silences the library's prints."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(OP_TIMEOUT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Toy(object):
    """The realm of transparent groups."""

    name = "toy"

    def __init__(self, profile):
        from . import toy
        self.toy = toy
        self.profile = profile
        toy.install(toy.profile(profile))
        self.groups = toy.GROUPS
        import zksk  # noqa: now on top of the transparent groups
        from zksk.pairings import BilinearGroupPair, G1Point, G2Point, AdditivePoint
        self.nid_of = {num: nid for nid, num in toy.EC_NUM.items()}
        self.bp = BilinearGroupPair()
        n1, n2, n3 = toy.BP_NUM[1]
        self.bpk = {n1: (toy.G1Elem, G1Point), n2: (toy.G2Elem, G2Point), n3: (toy.GTElem, AdditivePoint)}

    def q(self, g):
        return self.groups[g - 1]["q"]

    def d(self, g):
        return self.groups[g - 1]["d"]

    def order(self, g):
        return self.q(g)

    def point(self, g, v):
        v = [int(x) % self.q(g) for x in v]
        assert len(v) == self.d(g)
        if g in self.nid_of:
            return self.toy.EcPt._mk(self.toy.EcGroup(self.nid_of[g]), v)
        elem, wrap = self.bpk[g]
        return wrap(elem._mk(self.bp.bpgp, v), self.bp)

    def project(self, x):
        return proj.project(x, proj.toy_points)

    def vec(self, p):
        return proj.toy_points(p)


NAMES = ["x", "x ", "X", "", "0", "x\n", "x\x00", "None", "secret", "\u00e9", "e\u0301", "\udc80", "x" * 300, "x" * 299 + "y", "z" * 300, "(x)", "Secret", "r"]


def unit(d, i, scale=1):
    return [scale if j == i else 0 for j in range(d)]


class World(object):
    def __init__(self, realm):
        self.realm = realm
        self.events = []
        self.objs = {}     # name -> real statement
        self.trees = {}    # name -> description
        self.env_of = {}
        self.envs = {}     # env -> {secret name: Secret}
        self.sess = {}
        self.ncalls = 0
        self.manner = 0
        self.last_error = None
        import zksk
        from petlib.bn import Bn
        self.Bn = Bn
        self.zksk = zksk
        from . import custom
        self.custom = custom

    # ------------------------------------------------------------ helpers
    def emit(self, ev, **kw):
        kw["ev"] = ev
        self.events.append(kw)
        return kw

    def p(self, x):
        return self.realm.project(x)

    def call(self, fn, *args, **kw):
        """Outcome of a call: ("ok", result) or ("E", None)."""
        self.ncalls += 1
        try:
            with guarded():
                return "ok", fn(*args, **kw)
        except Exception as e:
            self.last_error = e
            return "E", None

    def verdict(self, fn, *args, **kw):
        out, res = self.call(fn, *args, **kw)
        if out == "E":
            return "E"
        return "T" if res is True else "F"

    def new(self, tag=""):
        self.objs, self.trees, self.env_of, self.envs, self.sess, self.exprs = {}, {}, {}, {}, {}, {}
        self.keys, self.creators = {}, {}
        self.manner = (self.manner + 1) % 8
        self.emit("new", tag=tag)

    def secret(self, env, name):
        e = self.envs.setdefault(env, {})
        if name not in e:
            named = env.startswith("named")
            e[name] = self.zksk.Secret(name=self.naming(name, len(e)) if named else None)
        return e[name]

    def naming(self, name, i):
        """Names that users may give to secrets: all of one scenario in one manner."""
        return (name, NAMES[i] if i < len(NAMES) else "n:" + name, "s" * 70 + name, name + "s" * 70, "%d" % i, " " * i, "\u00e9" * i + "e\u0301" * (i % 2),
                chr(65 + i // 2) if i % 2 else chr(97 + i // 2))[self.manner]

    def num(self, x):
        """An integer as the library may receive it."""
        if isinstance(x, self.Bn):
            return x
        return x if -2 ** 31 < x < 2 ** 31 else self.Bn.from_decimal(str(x))

    # --------------------------------------------------------- statements
    def pt(self, gp):
        return self.realm.point(gp[0], gp[1])

    def build(self, t, env):
        """Build the real statement object described by t."""
        sec = lambda n: self.secret(env, n)
        k = t["k"]
        if k == "dl":
            terms = [sec(n) * self.pt(b) for n, b in zip(t["x"], t["b"])]
            how = t.get("how", "sum")
            if how == "wsum":
                from zksk.expr import wsum_secrets
                expr = wsum_secrets([sec(n) for n in t["x"]], [self.pt(b) for b in t["b"]])
            elif how == "right" and len(terms) > 1:
                expr = terms[-1]
                for s in reversed(terms[:-1]):
                    expr = s + expr
            elif how == "rmul":
                b0 = self.pt(t["b"][0])
                expr = terms[0] if hasattr(b0, "bp") else b0 * sec(t["x"][0])
                for s in terms[1:]:
                    expr = expr + s
            else:
                expr = terms[0]
                for s in terms[1:]:
                    expr = expr + s
            from zksk import DLRep
            return DLRep(self.pt(t["lhs"]), expr)
        if k in ("and", "or"):
            subs = [self.build(s, env) for s in t["s"]]
            how = t.get("how", "ctor")
            if how == "op" and len(subs) >= 2 and all(s["k"] != k and (s["k"], k) != ("rng", "and") for s in t["s"]):
                res = subs[0]
                for s in subs[1:]:
                    res = (res & s) if k == "and" else (res | s)
                return res
            from zksk.composition import AndProofStmt, OrProofStmt
            return (AndProofStmt if k == "and" else OrProofStmt)(*subs)
        if k == "neq":
            from zksk.primitives.dl_notequal import DLNotEqual
            mk = lambda: DLNotEqual((self.pt(t["H0"]), self.pt(t["h0"])), (self.pt(t["H1"]), self.pt(t["h1"])),
                                    sec(t["x"]), bind=t["bind"])
            return mk()
        if k == "pow":
            from zksk.primitives.rangeproof import PowerTwoRangeStmt
            return PowerTwoRangeStmt(self.pt(t["com"]), self.pt(t["g"]), self.pt(t["h"]), t["n"],
                                     sec(t["x"]), sec(t["r"]))
        if k == "rng":
            from zksk.primitives.rangeproof import RangeStmt
            return RangeStmt(self.pt(t["com"]), self.pt(t["g"]), self.pt(t["h"]), self.num(t["a"]), self.num(t["b"]),
                             sec(t["x"]), sec(t["r"]))
        if k == "bbs":
            from zksk.primitives.bbsplus import BBSPlusSignatureStmt
            names = t["x"] if t["binding"] else t["x"][2:]
            st = BBSPlusSignatureStmt([sec(n) for n in names], t["_pk"], t["_sig"], binding=t["binding"])
            if not t["binding"]:
                self.envs[env][t["x"][0]], self.envs[env][t["x"][1]] = st.secret_vars[0], st.secret_vars[1]
            return st
        if k == "xplain":
            return self.custom.make_plain(t["cls"], self.build(t["inner"], env), t["val"])
        if k in ("xpt", "xtup"):
            return self.custom.make_pre(k, t["cls"], self.pt(t["g"]), self.pt(t["h"]), sec(t["x"]), t["val"], t["sim"])
        if k == "xdat":
            return self.custom.make_dat(t["cls"], self.pt(t["g"]), self.pt(t["h"]), self.pt(t["P"]), sec(t["x"]), t["form"],
                                        t["val"], t["sim"])
        raise ValueError(k)

    def spec_tree(self, t):
        """The description as the specification reads it."""
        k = t["k"]
        P = lambda gp: proj.ppt(gp[0], [int(x) % self.realm.q(gp[0]) for x in gp[1]])
        if k == "dl":
            return {"k": k, "lhs": P(t["lhs"]), "b": [P(b) for b in t["b"]], "x": list(t["x"])}
        if k in ("and", "or"):
            return {"k": k, "s": [self.spec_tree(s) for s in t["s"]]}
        if k == "neq":
            return {"k": k, "H0": P(t["H0"]), "h0": P(t["h0"]), "H1": P(t["H1"]), "h1": P(t["h1"]),
                    "x": t["x"], "bind": bool(t["bind"])}
        if k == "pow":
            return {"k": k, "com": P(t["com"]), "g": P(t["g"]), "h": P(t["h"]), "n": t["n"], "x": t["x"], "r": t["r"]}
        if k == "rng":
            return {"k": k, "com": P(t["com"]), "g": P(t["g"]), "h": P(t["h"]), "a": t["a"], "b": t["b"],
                    "x": t["x"], "r": t["r"]}
        if k == "bbs":
            return {"k": k, "g": [P(g) for g in t["g"]], "w": t["w"], "hz": t["hz"], "gt": t["gt"], "x": list(t["x"]),
                    "hassig": t["_sig"] is not None, "A": P(t["A"])}
        if k == "xplain":
            return {"k": k, "cls": t["cls"], "inner": self.spec_tree(t["inner"]), "val": t["val"]}
        if k in ("xpt", "xtup"):
            return {"k": k, "cls": t["cls"], "g": P(t["g"]), "h": P(t["h"]), "x": t["x"], "val": t["val"], "sim": bool(t["sim"])}
        if k == "xdat":
            return {"k": k, "cls": t["cls"], "g": P(t["g"]), "h": P(t["h"]), "P": P(t["P"]), "x": t["x"], "form": t["form"],
                    "val": t["val"], "sim": bool(t["sim"])}
        raise ValueError(k)

    def mk(self, o, tree, env, vals=None, tag=""):
        """Build statement o in an environment, after giving values to some of its secrets."""
        vals = dict(vals or {})
        for n, v in vals.items():
            self.secret(env, n).value = self.num(v)
        out, st = self.call(self.build, tree, env)
        if out == "ok":
            self.objs[o], self.trees[o], self.env_of[o] = st, tree, env
            for n, sig in self._sigvals(tree):
                vals[n] = int(sig)
        self.emit("mk", o=o, st=self.spec_tree(tree), env=env, out=out, tag=tag,
                  vals={n: proj.pint(int(v)) for n, v in vals.items()})
        return out == "ok"

    def _sigvals(self, t):
        """e and s are taken from the signature by the statement itself."""
        if t["k"] in ("and", "or"):
            return [p for s in t["s"] for p in self._sigvals(s)]
        if t["k"] == "xplain":
            return self._sigvals(t["inner"])
        if t["k"] == "bbs" and t["_sig"] is not None:
            return [(t["x"][0], t["_sig"].e), (t["x"][1], t["_sig"].s)]
        return []

    def comp(self, o, k, ops, via="ctor", tag=""):
        """Compose existing objects."""
        from zksk.composition import AndProofStmt, OrProofStmt

        def go():
            subs = [self.objs[x] for x in ops]
            if via == "op":
                res = subs[0]
                for s in subs[1:]:
                    res = (res & s) if k == "and" else (res | s)
                return res
            return (AndProofStmt if k == "and" else OrProofStmt)(*subs)
        out, st = self.call(go)
        if out == "ok":
            self.objs[o] = st
            self.trees[o] = None
            self.env_of[o] = self.env_of[ops[0]]
        self.emit("comp", o=o, k=k, ops=list(ops), via=via, out=out, tag=tag)
        return out == "ok"

    def sub(self, o, path):
        st = self.objs[o]
        for i in path.split(".")[1:]:
            st = st.subproofs[int(i) - 1]
        return st

    def mark(self, o, path, val=True, tag=""):
        self.marked = getattr(self, "marked", 0) + 1
        a = () if val is True and self.marked % 2 else (val,)
        out, _ = self.call(lambda: self.sub(o, path).set_simulated(*a))
        self.emit("mark", o=o, p=path, val=val, out=out, tag=tag)

    # ------------------------------------------------------------- proofs
    def dict_of(self, o, d):
        return {self.secret(self.env_of[o], n): self.num(v) for n, v in (d or {}).items()}

    def pnizk(self, n):
        h = getattr(n, "stmt_hash", None)
        return {"c": self.p(getattr(n, "challenge", None)), "r": self.p(getattr(n, "responses", None)),
                "p": self.p(getattr(n, "precommitment", None)),
                "h": h.hex() if isinstance(h, (bytes, bytearray)) else "?" + repr(type(h))}

    def ptr(self, t):
        d = self.pnizk(t)
        d["com"] = self.p(getattr(t, "commitment", None))
        return d

    NO_NIZK = {"c": {"t": "N"}, "r": {"t": "N"}, "p": {"t": "N"}, "h": "?"}

    def prove(self, o, d=None, msg="", tag="", how="prove"):
        kw = {} if msg == "" and how == "prove" else {"message": msg}
        given = {}

        def go():
            if how == "prover":
                given.update(self.dict_of(o, d))
                return self.objs[o].get_prover(given).get_nizk_proof(**kw)
            if d is None:
                return self.objs[o].prove(**kw)
            given.update(self.dict_of(o, d))
            return self.objs[o].prove(given, **kw)
        out, n = self.call(go)
        if given:
            # the dictionary is the caller's, who goes on using it
            for k in list(given):
                given[k] = self.num(int(given[k]) + 1)
            if self.ncalls % 2:
                given.clear()
        if out == "ok" and n is None:
            out = "E"
        self.emit("prove", o=o, dict={k: proj.pint(int(v)) for k, v in (d or {}).items()},
                  msg=proj.text(msg), out=out, tag=tag, n=self.pnizk(n) if out == "ok" else self.NO_NIZK)
        return n

    def verify(self, o, n, msg="", tag="", how="verify", strict=False):
        kw = {} if msg == "" and how == "verify" else {"message": msg}

        def go():
            if how == "args":
                return self.objs[o].get_verifier().verify_nizk(n, msg, "strict" if strict else "plain")
            if how == "kwargs":
                return self.objs[o].get_verifier().verify_nizk(n, message=msg, policy="strict" if strict else "plain")
            if how == "verifier":
                return self.objs[o].get_verifier().verify_nizk(n, **kw)
            return self.objs[o].verify(n, **kw)
        v = self.verdict(go)
        self.emit("verify", o=o, n=self.pnizk(n), msg=proj.text(msg), out=v, tag=tag, strict=strict)
        return v

    # ----------------------------------------------------------- sessions
    def pcom(self, o, s, d=None, tag=""):
        def go():
            pr = self.objs[o].get_prover(self.dict_of(o, d)) if d is not None else self.objs[o].get_prover()
            pre = pr.precommit()
            com = pr.commit()
            return pr, pre, com
        out, res = self.call(go)
        if out == "ok":
            pr, pre, com = res
            try:
                h, c = com
            except Exception:
                h, c = None, None
            self.sess[s] = {"prover": pr, "pre": pre, "com": com}
            self.emit("pcom", o=o, s=s, out=out, tag=tag, pre=self.p(pre), com=self.p(c),
                      h=h.hex() if isinstance(h, bytes) else "?",
                      dict={k: proj.pint(int(v)) for k, v in (d or {}).items()})
            return pre, com
        self.emit("pcom", o=o, s=s, out=out, tag=tag, pre={"t": "N"}, com={"t": "N"}, h="?",
                  dict={k: proj.pint(int(v)) for k, v in (d or {}).items()})
        return None

    def vchal(self, o, s, pre, com, tag="", skip_pre=False, reuse=False):
        """Verifier: receive precommitment and commitment (hash, com), send a challenge."""
        box = {}

        def go():
            v = box["v"] = self.sess[s]["verifier"] if reuse else self.objs[o].get_verifier()
            if not skip_pre:
                v.process_precommitment(pre)
            return v.send_challenge(com)
        out, c = self.call(go)
        if out == "ok":
            self.sess[s] = {"verifier": box["v"]}
        h, cm = com if isinstance(com, tuple) and len(com) == 2 else (None, None)
        self.emit("vchal", o=o, s=s, pre=self.p(pre), com=self.p(cm), h=h.hex() if isinstance(h, bytes) else "?",
                  out=out, c=self.p(c), tag=tag)
        return c

    def presp(self, s, c, tag="", cover=False):
        out, r = self.call(lambda: self.sess[s]["prover"].compute_response(c))
        self.emit("presp", s=s, c=self.p(c), r=self.p(r), out=out, tag=tag, cover=cover)
        return r

    def vver(self, s, r, tag="", args=(), kwargs={}):
        v = self.verdict(lambda: self.sess[s]["verifier"].verify(r, *args, **kwargs))
        self.emit("vver", s=s, r=self.p(r), out=v, tag=tag, strict="strict" in list(args) + list(kwargs.values()))
        return v

    def vearly(self, o, s, pre, r, tag=""):
        """A verifier asked for a verdict before it got a commitment."""
        def go():
            v = self.objs[o].get_verifier()
            v.process_precommitment(pre)
            return v.verify(r)
        self.emit("vver", s=s, r=self.p(r), out=self.verdict(go), tag=tag)

    def session(self, po, vo, d=None, tag="", s="s"):
        """A complete honest session; returns the verdict."""
        res = self.pcom(po, s + "p", d, tag=tag)
        if res is None:
            return None
        pre, com = res
        c = self.vchal(vo, s + "v", pre, com, tag=tag)
        if s + "v" not in self.sess or c is None:
            return None
        r = self.presp(s + "p", c, tag=tag)
        return self.vver(s + "v", r, tag=tag)

    def protocol(self, po, vo, d=None, tag="", s="t", **kw):
        """A session by the library's own runner of protocols, recorded as its parts."""
        from zksk.utils.debug import SigmaProtocol
        log = {}

        class Tap(object):
            def __init__(self, of):
                self.of = of

            def __getattr__(self, name):
                got = getattr(self.of, name)
                if name not in ("precommit", "commit", "compute_response", "process_precommitment", "send_challenge", "verify"):
                    return got

                def fn(*args):
                    log[name] = {"args": args, "out": "E", "res": None}
                    log[name]["res"] = got(*args)
                    log[name]["out"] = "ok"
                    return log[name]["res"]
                return fn
        out, pr = self.call(lambda: self.objs[po].get_prover(self.dict_of(po, d)) if d is not None else self.objs[po].get_prover())
        if out == "E" or pr is None:
            return self.session(po, vo, d, tag=tag, s=s)
        vf = self.objs[vo].get_verifier()
        verdict = self.verdict(lambda: SigmaProtocol(Tap(vf), Tap(pr)).verify(**kw))
        none = {"args": (None,), "out": "E", "res": None}
        pre, com, chal, resp = [log.get(k, none) for k in ("precommit", "commit", "send_challenge", "compute_response")]
        h, c = com["res"] if com["out"] == "ok" else (b"", None)
        self.emit("pcom", o=po, s=s + "p", out=com["out"], tag=tag, pre=self.p(pre["res"]), com=self.p(c), h=h.hex() if com["out"] == "ok" else "?",
                  dict={k: proj.pint(int(v)) for k, v in (d or {}).items()})
        if "send_challenge" in log:
            h, c = chal["args"][0]
            self.emit("vchal", o=vo, s=s + "v", pre=self.p(log.get("process_precommitment", none)["args"][0]), com=self.p(c), h=h.hex(), out=chal["out"],
                      c=self.p(chal["res"]), tag=tag)
        if "compute_response" in log:
            self.emit("presp", s=s + "p", c=self.p(resp["args"][0]), r=self.p(resp["res"]), out=resp["out"], tag=tag, cover=False)
        if "verify" in log:
            self.emit("vver", s=s + "v", r=self.p(log["verify"]["args"][0]), out=verdict, tag=tag, strict=False)
        return verdict

    # --------------------------------------------------------- simulation
    def sim(self, o, c=None, tag=""):
        if c is not None and not isinstance(c, self.Bn):
            c = self.Bn.from_decimal(str(c))
        out, t = self.call(lambda: self.objs[o].simulate() if c is None else self.objs[o].simulate(challenge=c))
        if out == "ok" and t is None:
            out = "E"
        self.emit("sim", o=o, c=self.p(c), out=out, tag=tag,
                  tr=self.ptr(t) if out == "ok" else dict(self.NO_NIZK, com={"t": "N"}))
        return t

    def simchk(self, o, t, tag=""):
        v = self.verdict(lambda: self.objs[o].verify_simulation_consistency(t))
        self.emit("simchk", o=o, tr=self.ptr(t), out=v, tag=tag)
        return v

    # ------------------------------------------------------ adversaries
    def hash(self, o, pre, tag=""):
        """The statement hash, given a precommitment."""
        def go():
            st = self.objs[o]
            st.get_verifier().process_precommitment(pre)
            return st.prehash_statement().digest()
        out, h = self.call(go)
        if out != "ok":
            return None
        self.emit("hash", o=o, pre=self.p(pre), h=h.hex(), tag=tag)
        return h

    def forge(self, o, pre, com, respond, msg="", tag=""):
        """
        A malicious prover with its own precommitment, commitment and responses, written against the
        Prover interface.  Returns the proof it assembles, or None.
        """
        from zksk.base import Prover
        got = {}

        class Evil(Prover):
            def precommit(self):
                return pre

            def internal_commit(self, randomizers_dict=None):
                return com

            def compute_response(self, challenge):
                got["c"] = challenge
                got["r"] = respond(challenge)
                return got["r"]

        def go():
            st = self.objs[o]
            st.get_verifier().process_precommitment(pre)
            return Evil(st, {}).get_nizk_proof(msg)
        out, n = self.call(go)
        ok = out == "ok" and n is not None and "c" in got
        if ok:
            self.emit("forge", o=o, pre=self.p(pre), com=self.p(com), c=self.p(n.challenge), msg=proj.text(msg),
                      h=self.pnizk(n)["h"], out=out, tag=tag)
        return n if ok else None

    # --------------------------------------------------------- signatures
    def bbskey(self, k, n, tag="", own=0):
        """A pair of keys; own: with generators, and perhaps a second base, of the issuer's choice."""
        from zksk.primitives import bbsplus as B

        def make():
            pair = B.BBSPlusKeypair.generate(self.realm.bp, n)
            if not own:
                return pair
            g, h0 = list(pair.generators), pair.h0
            i = own % len(g)
            g = g[i:] + g[:i]
            if own % 2:
                h0 = own * h0
            sk = B.BBSPlusSecretKey(gamma=pair.sk.gamma, generators=g, h0=h0)
            return B.BBSPlusKeypair(generators=g, h0=h0, sk=sk, pk=B.BBSPlusPublicKey(w=sk.gamma * h0, generators=g, h0=h0))
        out, pair = self.call(make)
        if out == "ok":
            self.keys[k] = pair
        g = [self.realm.vec(x) for x in pair.generators] if out == "ok" else []
        self.emit("bbskey", k=k, out=out, tag=tag, g=[proj.ppt(*x) for x in g],
                  w=int(self.realm.vec(pair.pk.w)[1][0]) if out == "ok" else 0,
                  hz=int(self.realm.vec(pair.pk.h0)[1][0]) if out == "ok" else 0)
        return out == "ok"

    def psig(self, s):
        return {"A": self.p(getattr(s, "A", None)), "e": self.p(getattr(s, "e", None)), "s": self.p(getattr(s, "s", None))}

    def pmsgs(self, msgs):
        return [proj.pint(int(m)) for m in msgs]

    def bbscommit(self, u, k, msgs, zkp=True, fresh=True, tag=""):
        from zksk.primitives.bbsplus import BBSPlusSignatureCreator
        if fresh or u not in self.creators:
            self.creators[u] = BBSPlusSignatureCreator(self.keys[k].pk)
        out, m = self.call(lambda: self.creators[u].commit([self.Bn.from_decimal(str(x)) for x in msgs], zkp=zkp))
        proof = m.com_nizk_proof if out == "ok" else None
        self.emit("bbscommit", u=u, k=k, msgs=self.pmsgs(msgs), zkp=bool(zkp), out=out, tag=tag,
                  com=self.p(m.com_message) if out == "ok" else {"t": "N"},
                  n=self.pnizk(proof) if proof is not None else self.NO_NIZK)
        return m

    def bbsblind(self, k, com, n, tag=""):
        from zksk.primitives.bbsplus import UserCommitmentMessage
        v = self.verdict(lambda: UserCommitmentMessage(com, n).verify_blinding(self.keys[k].pk))
        self.emit("bbsblind", k=k, com=self.p(com), n=self.pnizk(n) if n is not None else self.NO_NIZK, out=v, tag=tag)
        return v

    def bbssign(self, k, com, tag=""):
        out, s = self.call(lambda: self.keys[k].sk.sign(com))
        self.emit("bbssign", k=k, com=self.p(com), out=out, sig=self.psig(s), tag=tag)
        return s

    def bbsobtain(self, u, k, pre, tag=""):
        out, s = self.call(lambda: self.creators[u].obtain_signature(pre))
        self.emit("bbsobtain", u=u, k=k, pre=self.psig(pre), sig=self.psig(s), out=out, tag=tag)
        return s

    def bbsver(self, k, sig, msgs, tag=""):
        v = self.verdict(lambda: sig.verify_signature(self.keys[k].pk, [self.Bn.from_decimal(str(x)) for x in msgs]))
        self.emit("bbsver", k=k, sig=self.psig(sig), msgs=self.pmsgs(msgs), out=v, tag=tag)
        return v

    # -------------------------------------------------------- expressions
    def setvals(self, env, vals):
        for n, v in vals.items():
            self.secret(env, n).value = self.num(v)
        self.emit("vals", env=env, vals={n: proj.pint(int(v)) for n, v in vals.items()})

    def term(self, x, env, s, b, left=False, tag=""):
        def go():
            return self.pt(b) * self.secret(env, s) if left else self.secret(env, s) * self.pt(b)
        out, e = self.call(go)
        if out == "ok":
            self.exprs[x] = e
        self.emit("term", x=x, s=s, b=proj.ppt(b[0], b[1]), out=out, tag=tag)

    def sum(self, x, a, b, inplace=False, tag=""):
        def go():
            if inplace:
                e = self.exprs[a]
                e += self.exprs[b]
                return e
            return self.exprs[a] + self.exprs[b]
        out, e = self.call(go)
        if out == "ok":
            self.exprs[x] = e
        self.emit("sum", x=x, a=a, b=b, out=out, tag=tag)

    def wsum(self, x, env, ss, bs, tag=""):
        from zksk.expr import wsum_secrets
        out, e = self.call(lambda: wsum_secrets([self.secret(env, s) for s in ss], [self.pt(b) for b in bs]))
        if out == "ok":
            self.exprs[x] = e
        self.emit("wsum", x=x, ss=list(ss), bs=[proj.ppt(b[0], b[1]) for b in bs], out=out, tag=tag)

    def eval(self, x, env, tag=""):
        out, v = self.call(lambda: self.exprs[x].eval())
        self.emit("eval", x=x, env=env, out=out, v=self.p(v), tag=tag)

    def mkdl(self, o, env, x, lhs, tag=""):
        from zksk import DLRep
        out, st = self.call(lambda: DLRep(self.pt(lhs), self.exprs[x]))
        if out == "ok":
            self.objs[o], self.trees[o], self.env_of[o] = st, None, env
        self.emit("mkdl", o=o, env=env, x=x, lhs=proj.ppt(lhs[0], lhs[1]), out=out, tag=tag)
        return out == "ok"

    def obs(self, clause, got, want, tag=""):
        self.emit("obs", clause=clause, got=got, want=want, tag=tag)
