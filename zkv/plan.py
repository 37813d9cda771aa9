"""What each check runs: units of driving + trace validation, and models."""

TRUST = ["the transparent groups (zkv/toy.py) have the interface and failure behaviour of petlib/bplib",
         "the operating system's randomness is not adversarial",
         "TLC evaluates the specification correctly"]


def relevant(clause, pats):
    return any(clause == p or (p.endswith("*") and clause.startswith(p[:-1])) for p in pats) or clause == "process.died"


def U(seed, salt, drivers, family="mix", n=40, profile="big", **kw):
    if isinstance(drivers, str):
        drivers = [drivers]
    return dict(seed=seed, salt=salt, drivers=drivers, family=family, n=n, profile=profile, **kw)


def spread(seed, salt, drivers, families, n, profiles=("big",), **kw):
    out = []
    for p in profiles:
        for f in families:
            salt += 1
            out.append(U(seed, salt, drivers, f, n, p, **kw))
    return out


PLANS = {}


def prop(pid, clauses, level="model_checking", assumptions=()):
    def deco(fn):
        PLANS[pid] = (fn, clauses, level, list(assumptions))
        return fn
    return deco


def plan(pid, tier, seed):
    fn, clauses, level, assumptions = PLANS[pid]
    big = tier == "thorough"
    d = fn(seed, big)
    d.update(clauses=clauses, level=level, assumptions=TRUST + assumptions)
    d.setdefault("models", [])
    return d


ALL = ["dl", "neq", "range", "ext", "or", "deep", "mix", "many"]
TINY = ["tiny2", "tiny3", "tiny5", "tiny7"]


def wide(seed, salt, kinds, n, big, profiles=("p224", "huge", "p256")):
    """Statements about large numbers (spec/ZkWide.tla)."""
    if big:
        profiles = ("p224", "huge", "p256", "k1", "bp")
    return [dict(module="wide", seed=seed, salt=salt + i, kinds=kinds, n=n * (6 if big else 1), profile=p, budget=500 if big else 60)
            for i, p in enumerate(profiles)]


def M(module, cfg=None, args=(), workers=2, heap="2g", **env):
    return dict(module=module, cfg=cfg or module, env=env, args=list(args), workers=workers, heap=heap)


def fiat(without=()):
    """The design of non-interactive proofs (spec/Fiat.tla)."""
    return [M("Fiat", workers=2, ZK_WITHOUT="nothing")] + [M("Fiat", "FiatNeeded", workers=1, ZK_WITHOUT=x) for x in without]


def sigma(seed, big, fams, without=(), Q="3"):
    """The design of the protocols (spec/Sigma.tla): families of statements (name, dimension, every n-th, every n-th if big)."""
    e = dict(ZK_Q=Q, ZK_LIMBS="1", ZK_SEED=str(seed))
    return ([M("Sigma", workers=8 if big else 4, ZK_FAM=f, ZK_D=str(d), ZK_STEP=str(b if big else n), ZK_WITHOUT="", **e) for f, d, n, b in fams]
            + [M("Sigma", "SigmaNeeded", workers=1, ZK_FAM=f, ZK_D=str(d), ZK_STEP="1" if big else "3", ZK_WITHOUT=x, **e) for x, f, d in without])


@prop("C01", ["wide.refused", "prove.refused", "prove.malformed", "prove.dishonest", "verify.rejected", "challenge.refused",
              "respond.*", "chance.invalid", "mk.refused"])
def c01(seed, big):
    n = 300 if big else 50
    return {"units": spread(seed, 100, "honest", ALL, n)
            + spread(seed, 120, "honest", ["mix"], n, TINY)
            + spread(seed, 140, "honest", ["or", "mix"], n, ["flat"])
            + spread(seed, 145, "wideor", ["dl"], n // 2, ["big", "flat"])
            + spread(seed, 148, "manysecrets", [None], n // 4, ["big", "flat"])
            + wide(seed, 150, ["dl", "flip"], 60, big),
            "models": sigma(seed, big, [("leaf", 1, 1, 1), ("pair", 1, 5, 1), ("andor", 2, 600, 60), ("orand", 2, 600, 60)])}

_TV = "scenarios generated by TLC from ZkGen.tla run on the real code; every recorded call validated by TLC against ZkTrace.tla/ZkCore.tla"
_MC = "; design model %s checked exhaustively by TLC for small groups"
TECHNIQUE = {
    "": _TV,
    "C01": _TV + _MC % "Sigma.tla", "C02": _TV + "; adversarial mutations of transcripts" + _MC % "Sigma.tla",
    "C03": _TV + "; malicious provers with split witnesses" + _MC % "Sigma.tla",
    "C04": _TV + "; malicious provers with chosen sub-challenges" + _MC % "Sigma.tla",
    "C05": _TV + _MC % "Fiat.tla", "C06": _TV + _MC % "Fiat.tla",
    "C07": "samples of the real prover's nonces, read through transparent groups, consumed by TLC against ZkRand.tla (freshness, equality classes, uniformity)",
    "C08": "transcripts of every provable branch consumed by TLC against ZkRand.tla (same shapes, equalities, distributions)" + _MC % "Sigma.tla",
    "C09": _TV + _MC % "Sigma.tla (perfect zero knowledge)",
    "C11": "histories of operations enumerated by TLC from Lifecycle.tla, replayed on the real code, validated by TLC against ZkTrace.tla",
    "C12": _TV + "; injected composition faults" + _MC % "Sigma.tla",
    "C13": "random programs of expressions and operators on the real code, validated by TLC against ZkTrace.tla",
    "C14": _TV + "; histories from Lifecycle.tla",
    "C15": "all cases enumerated by TLC from Neq.tla (design checked at the same time) replayed on the real code; traces validated against ZkTrace.tla, ZkWide.tla",
    "C16": "all cases enumerated by TLC from Range.tla (design checked at the same time) replayed on the real code; traces validated against ZkTrace.tla, ZkWide.tla",
    "C17": "issuance sessions and forgeries on the real code, validated by TLC against ZkTrace.tla; design model Bbs.tla checked exhaustively",
    "C18": "possession proofs, forgeries and nonce samples on the real code, validated by TLC against ZkTrace.tla and ZkRand.tla; design model Bbs.tla",
    "C19": "proofs shipped between processes (transparent and real groups), recorded and validated by TLC against ZkShip.tla",
    "C20": "programs over pairing points generated by TLC from ZkPair.tla, run on the real pairing library, results validated by TLC (polynomial discrete logs)",
    "C23": "samples of keys, requests and signatures of the real code, read through transparent groups, consumed by TLC against ZkRand.tla (freshness, independence, uniformity); design model Bbs.tla",
    "C24": "families of generators derived in several processes (transparent and real groups), recorded and validated by TLC against ZkParams.tla (random oracle; linear independence of discrete logarithms)",
    "C22": _TV + "; interleavings of sessions enumerated by TLC from Sessions.tla, replayed and validated; sequences of challenges consumed by TLC against ZkRand.tla",
}
_N = ("Bounded: random but seeded scenarios (counts in the evidence); the verdict about each recorded call is TLC's and exact. "
      "Trusts the transparent groups (zkv/toy.py), the projection of values into the trace, and TLC.")
_NS = "Statistical: bounds are set so that a right implementation fails with probability below 1e-9; bits, moments and equality classes, not full distributions. Trusts the transparent groups and TLC."
NOTE = {"": _N, "C07": _NS, "C23": _NS, "C08": _NS + " The design (Sigma.tla) is checked exhaustively for small groups.", "C11": "All histories of two operations (three in the thorough tier) and random ones of up to twelve, for thirteen kinds of statement. " + _N,
        "C15": "All pairs and secrets over Z_5 and Z_7 (sampled in the quick tier). " + _N,
        "C16": "All powers up to 2^4 (2^6) and ranges up to width 8 (17), with values around every boundary. " + _N,
        "C19": "Processes differ in hash seed, import order and construction order. " + _N,
        "C20": "Equality of real points is decided by polynomial identity; fails by chance with probability below 2^-200. Trusts bplib's comparison of points and TLC.",
        "C24": "That points are unrelated is decided on the transparent groups only. " + _N,
        "C22": _N + " Distribution of challenges: statistical."}


JUDGED = ["verify.accepted", "verify.rejected", "simcheck.accepted", "simcheck.rejected"]


@prop("C02", JUDGED + ["wide.*", "challenge.refused", "respond.commitment"])
def c02(seed, big):
    n = 250 if big else 26
    return {"units": spread(seed, 200, "mutate", ALL, n) + spread(seed, 220, "transcript", ["mix", "or", "range"], n)
            + spread(seed, 230, "false", ["mix", "or", "neq"], 2 * n)
            + spread(seed, 280, "cheat", ["mix", "dl", "ext", "many"], n, args={"k": 2})
            + spread(seed, 240, ["mutate", "transcript", "false"], ["mix"], n, TINY)
            + spread(seed, 250, ["mutate", "transcript"], ["dl"], n, ["flat"])
            + wide(seed, 260, ["dl", "flip", "flip"], 60, big),
            "models": sigma(seed, big, [("leaf", 2, 1, 1), ("or2", 2, 5, 1), ("pair", 2, 100, 10)],
                            [("sum", "or2", 2), ("count", "or2", 2), ("range", "or2", 2)])}


@prop("C03", ["wide.*", "verify.accepted", "verify.rejected", "prove.dishonest", "respond.dishonest"])
def c03(seed, big):
    n = 600 if big else 70
    return {"units": spread(seed, 300, "cheat", ALL, n) + spread(seed, 320, "cheat", ["mix", "dl"], n, ["tiny5", "flat"])
            + spread(seed, 340, "cheat", ["neq", "ext", "dl"], n, args={"ext": 1.0, "prob": 0.5})
            + wide(seed, 360, ["same"], 60, big),
            "models": sigma(seed, big, [("pair", 1, 3, 1), ("andor", 1, 30, 2), ("andand", 1, 8, 1)], [("consistency", "pair", 1)])}


@prop("C04", ["wide.*", "verify.accepted", "verify.rejected", "prove.dishonest", "respond.dishonest"])
def c04(seed, big):
    n = 500 if big else 60
    return {"units": spread(seed, 400, "orcheat", ["or", "mix", "deep", "range", "ext"], n)
            + spread(seed, 420, "orcheat", ["or", "mix"], n, ["tiny3", "tiny7", "flat"])
            + spread(seed, 440, "mutate", ["or"], n // 2, ["big", "tiny5"])
            + wide(seed, 460, ["flip"], 40, big),
            "models": sigma(seed, big, [("or2", 2, 5, 1), ("oror", 2, 3000, 300), ("or3", 2, 3000, 300)],
                            [("sum", "or2", 2), ("count", "or2", 2), ("range", "or2", 2)])}


@prop("C05", ["hash.*", "verify.accepted", "verify.rejected", "challenge.*"])
def c05(seed, big):
    n = 200 if big else 16
    return {"units": spread(seed, 500, "pairs", ALL, n) + spread(seed, 520, "pairs", ["mix", "dl"], n, ["tiny3", "flat"]),
            "models": fiat(["statement"])}


@prop("C06", ["fs.*", "hash.*", "verify.accepted", "verify.rejected"])
def c06(seed, big):
    n = 250 if big else 22
    return {"units": spread(seed, 600, "mutate", ALL, n) + spread(seed, 620, "honest", ["mix", "dl"], 2 * n)
            + spread(seed, 630, "mutate", ["mix"], n, ["tiny3", "flat"])
            + spread(seed, 640, "messages", [""], 40 if big else 3, ["big", "flat"]),
            "models": fiat(["precommitment", "commitment", "message"])}


NONCES = ["dl", "again", "and", "or", "orfalse", "andor", "neq", "andneq", "pow1", "pow", "rng", "xpt", "xtup", "xplain", "orneq",
          "deep", "bbs", "andbbs", "twin", "andtwin"]
DISJUNCTIONS = ["dl2", "dl3", "dl5", "shared", "orders", "pairing", "neq", "neqbind", "ext", "pow", "pow1", "rng", "nested", "bbs", "inner", "twins"]
SIMULATED = ["conj", "conjor", "conjrng", "conjbbs", "inner", "twins", "ext"]


@prop("C07", ["rand.*", "nonce.*"])
def c07(seed, big):
    h = dict(module="rand", mode="nonce", seed=seed, n=64)
    units = [dict(h, name="dl", salt=790, n=400)] + [dict(h, name=t, salt=700 + i) for i, t in enumerate(NONCES)]
    if big:
        units = [dict(h, name=t, salt=700 + i, n=n, allbits=True, pairs=24) for i, t in enumerate(NONCES) for n in (100, 400)]
    return {"units": units}


@prop("C08", ["or.*"])
def c08(seed, big):
    h = dict(module="rand", mode="or", seed=seed, n=64)
    units = [dict(h, name=t, salt=800 + i) for i, t in enumerate(DISJUNCTIONS)]
    if big:
        units = [dict(h, name=t, salt=800 + i, n=n, allbits=True) for i, t in enumerate(DISJUNCTIONS) for n in (64, 160)]
    return {"units": units, "models": sigma(seed, big, [("or2", 2, 5, 1), ("or2", 1, 1, 1), ("orand", 1, 30, 2), ("oror", 1, 200, 10)])}


@prop("C09", ["or.*", "sim.*", "simcheck.*", "verify.accepted", "verify.rejected", "chance.invalid"])
def c09(seed, big):
    n = 250 if big else 26
    return {"units": spread(seed, 900, "simulate", ALL, n) + spread(seed, 920, "simulate", ["mix"], n, TINY)
            + spread(seed, 940, "simulate", ["mix", "or"], n, ["flat"])
            + [dict(module="rand", mode="or", seed=seed, n=160 if big else 64, name=t, salt=950 + i, allbits=big) for i, t in enumerate(SIMULATED)],
            "models": sigma(seed, big, [("leaf", 2, 1, 1), ("or2", 2, 5, 1), ("andor", 1, 30, 2), ("oror", 1, 200, 10)])}


@prop("C10", ["prove.refused", "prove.produced", "verify.rejected", "challenge.refused", "respond.*", "cover.*"])
def c10(seed, big):
    n = 400 if big else 50
    return {"units": spread(seed, 1000, "branches", ALL, n) + spread(seed, 1020, "branches", ["mix", "or"], n, ["tiny3", "flat"]) + spread(seed, 1030, "branches", ["extor"], 2 * n)
            + spread(seed, 1040, "cover", ["or"], n // 5, ["big"]) + spread(seed, 1050, "wideor", ["dl"], n, ["big", "flat", "tiny3"])}


HIST = ["dl", "and", "or", "neq", "pow", "rng", "xpt", "xtup", "xdat", "xplain", "andneq", "orneq", "deep"]


@prop("C11", ["prove.*", "verify.*", "sim.*", "simcheck.*", "challenge.*", "respond.*", "mk.refused", "mark.refused", "comp.*"])
def c11(seed, big):
    units = []
    for i, t in enumerate(HIST):
        h = dict(module="history", template=t, seed=seed, salt=1100 + i)
        if big:
            units += [dict(h, L=3, shards=4, shard=j, budget=500) for j in range(4)]
            units += [dict(h, L=m, mode="sim", num=200, sample=500, salt=1120 + 20 * k + i) for k, m in enumerate((6, 12))]
            units += [dict(h, L=150, mode="sim", num=8, sample=8, salt=1190 + i)]
        else:
            units += [dict(h, L=2), dict(h, L=8, mode="sim", num=30, sample=25), dict(h, L=45, mode="sim", num=4, sample=4)]
    return {"units": units}


@prop("C12", ["prove.*", "comp.*", "mk.refused"])
def c12(seed, big):
    n = 500 if big else 60
    return {"units": spread(seed, 1200, "faults", ["loose"], 2 * n, ["big", "tiny3", "tiny7", "flat"])
            + spread(seed, 1210, "faults", ["mix", "or", "dl", "ext", "range", "neq"], n)
            + spread(seed, 1220, "deepfaults", [None], 5 * n, ["big", "flat", "tiny7"]),
            "models": sigma(seed, big, [("pair", 1, 5, 1), ("andor", 1, 30, 2)], [("composition", "andor", 1)])}


@prop("C13", ["expr.*", "comp.*", "mk.refused", "prove.*", "verify.*"])
def c13(seed, big):
    n = 600 if big else 80
    return {"units": spread(seed, 1300, "expr", [""], n, ["big", "flat", "tiny5"])
            + spread(seed, 1310, "operators", ["mix", "or", "deep", "dl", "ext"], n)}


@prop("C14", ["prove.*", "verify.*", "sim.*", "simcheck.*", "comp.*", "mark.refused", "respond.*", "challenge.*"])
def c14(seed, big):
    n = 500 if big else 60
    units = spread(seed, 1400, "operators", ALL, n) + spread(seed, 1480, "copies", ["or", "deep", "mix", "ext"], n // 2, ["big", "flat"] if big else ["big"])
    units += spread(seed, 1420, "operators", ["mix", "or"], n, ["tiny3", "flat"])
    for i, t in enumerate(("and", "or", "neq", "xtup", "orneq", "deep")):
        units.append(dict(module="history", template=t, seed=seed, salt=1440 + i, L=6, mode="sim", num=60, sample=300 if big else 25))
    return {"units": units}


@prop("C15", ["wide.*", "neq.*", "prove.*", "verify.*", "respond.*", "challenge.*", "mk.refused"])
def c15(seed, big):
    h = dict(module="cases", table="neq", seed=seed)
    units = []
    for i, (p, q) in enumerate((("big", 5), ("flat", 7), ("tiny5", 5), ("tiny7", 7))):
        if big:
            units += [dict(h, profile=p, q=q, salt=1500 + i, shards=4, shard=j, sample=2400, budget=250) for j in range(4)]
        else:
            units.append(dict(h, profile=p, q=q, salt=1500 + i, sample=150))
    n = 300 if big else 40
    return {"units": units + spread(seed, 1520, ["cheat", "mutate"], ["neq"], 2 * n, args={})
            + spread(seed, 1530, ["honest", "false"], ["neq"], n, ["big", "tiny5"]) + wide(seed, 1560, ["neq"], 60, big),
            "models": [M("Neq", ZK_Q="5")] + ([M("Neq", ZK_Q="7", workers=4), M("Neq", ZK_Q="3")] if big else [])}


@prop("C16", ["wide.*", "range.*", "prove.*", "verify.*", "respond.*", "challenge.*", "mk.refused"])
def c16(seed, big):
    h = dict(module="cases", seed=seed)
    units = [dict(h, table="pow", salt=1600, N=6 if big else 4)]
    if big:
        units += [dict(h, table="rng", W=17, salt=1601, shards=12, shard=j) for j in range(12)]
        units += [dict(h, table="pow", profile="flat", salt=1602, N=6)]
    else:
        units += [dict(h, table="rng", W=8, salt=1601, shards=4, shard=j, sample=70) for j in range(3)]
    n = 200 if big else 20
    return {"units": units + spread(seed, 1620, ["mutate", "honest", "false"], ["range"], 2 * n)
            + spread(seed, 1630, ["pairs", "simulate"], ["range"], n) + wide(seed, 1660, ["range", "range", "pow"], 27, big),
            "models": [M("Range", ZK_Q="67", ZK_W="8")] + ([M("Range", ZK_Q=q, ZK_W="33") for q in ("131", "257", "2003")] if big else [])}


def many(seed, salt, drivers, n, profiles, k):
    return [U(seed, salt + 10 * i + j, drivers, None, n, p, budget=250) for i, p in enumerate(profiles) for j in range(k)]


@prop("C17", ["bbs.*", "chance.invalid"])
def c17(seed, big):
    return {"units": many(seed, 1700, "issue", 700 if big else 70, ("big", "flat"), 4 if big else 2)
            + [U(seed, 1790 + i, "issue", None, 20 if big else 3, p, budget=250, args={"n": [70, 36] if i else [18, 7]})
               for i, p in enumerate(("big", "flat"))],
            "models": [M("Bbs", ZK_Q="3")]}


@prop("C18", ["bbs.*", "rand.*", "chance.invalid", "prove.*", "verify.*", "sim.*", "simcheck.*", "respond.*", "challenge.*", "hash.*", "fs.*", "mk.refused"])
def c18(seed, big):
    return {"units": many(seed, 1800, "possess", 350 if big else 35, ("big", "flat"), 4 if big else 3)
            + many(seed, 1850, "forge", 400 if big else 50, ("big", "flat"), 3 if big else 1)
            + [dict(module="rand", mode="nonce", seed=seed, n=200 if big else 64, name=t, salt=1890 + i, allbits=big)
               for i, t in enumerate(("bbs", "andbbs"))],
            "models": [M("Bbs", ZK_Q="3")]}


@prop("C19", ["ship.*", "verify.rejected", "verify.accepted", "prove.refused", "mk.refused"])
def c19(seed, big):
    plan = [("ext", "bp"), ("mix", "bp"), ("or", "p224"), ("deep", "p256"), ("ext", "k1"), ("neq", "k1"), ("range", "flat"), ("ext", "big"), ("mix", "big"),
            ("dl", "bp"), ("extor", "p224"), ("range", "k1"), ("small", "k1"), ("small", "big")]
    if big:
        plan = [(f, p) for f in ("dl", "neq", "range", "ext", "extor", "or", "deep", "mix", "small", "many") for p in ("p224", "k1", "p256", "bp", "big", "flat")]
    return {"units": [dict(module="ship", seed=seed, salt=1900 + i, family=f, profile=p, n=30 if big else 3 if p == "bp" or f == "range" else 6,
                           provers=2 if big else 1) for i, (f, p) in enumerate(plan)]}


@prop("C20", ["pair.*"])
def c20(seed, big):
    h = dict(module="pair", seed=seed)
    if big:
        return {"units": [dict(h, n=300, L=m, salt=2000 + i, budget=700) for i, m in enumerate((12, 20, 30, 40, 60, 80, 25, 35))]}
    return {"units": [dict(h, n=40, L=m, salt=2000 + i) for i, m in enumerate((12, 20, 30, 40, 25, 35))]}


def interleavings(seed, big, templates, salt):
    """The interleavings of spec/Sessions.tla, replayed."""
    units = []
    for i, t in enumerate(templates):
        h = dict(module="sessions", template=t, seed=seed, salt=salt + i)
        light = t in ("dl", "and", "or", "xpt", "xdat")
        if big:
            units += [dict(h, L=7, sample=5000 if light else 800), dict(h, L=12, mode="sim", num=300, sample=300)]
        else:
            units += [dict(h, L=6, sample=400 if light else 60), dict(h, L=10, mode="sim", num=40, sample=40)]
    return units


@prop("C21", ["prove.*", "verify.*", "fs.*", "hash.*", "sim.*", "simcheck.*", "respond.*", "challenge.*", "mk.refused", "mark.refused", "chance.invalid"])
def c21(seed, big):
    n = 300 if big else 40
    ext = ["ext", "extor"]
    return {"units": spread(seed, 2100, "honest", ext, 2 * n, ["big", "tiny5"]) + spread(seed, 2110, ["mutate", "cheat"], ext, n)
            + spread(seed, 2120, "sessions", ext, n) + spread(seed, 2130, ["simulate", "pairs"], ext, n, ["big", "tiny3"])
            + spread(seed, 2140, "branches", ext, 2 * n) + spread(seed, 2150, "hooks", ext + ["small"], 2 * n, ["big", "tiny5"])
            + interleavings(seed, big, ["xpt", "xtup", "xplain"], 2170)}


@prop("C22", ["chal.*", "challenge.*", "verify.accepted", "verify.rejected", "respond.commitment", "respond.refused"])
def c22(seed, big):
    n = 400 if big else 40
    h = dict(module="rand", mode="chal", seed=seed)
    return {"units": spread(seed, 2200, "sessions", ALL, n) + spread(seed, 2220, "sessions", ["mix", "or", "dl"], n, ["tiny3", "tiny7", "flat"])
            + [dict(h, n=800, salt=2250 + i) for i in range(6 if big else 2)]
            + interleavings(seed, big, HIST, 2260)}


@prop("C23", ["rand.*", "issue.*"])
def c23(seed, big):
    h = dict(module="rand", mode="issue", seed=seed, allbits=big)
    return {"units": [dict(h, zkp=z, n=n, salt=2300 + i) for i, (z, n) in enumerate(((True, 500), (False, 500), (True, 1600)) if big else ((True, 160), (False, 160)))],
            "models": [M("Bbs", ZK_Q="3")]}


@prop("C24", ["par.*"])
def c24(seed, big):
    h = dict(module="params", seed=seed)
    return {"units": [dict(h, n=12 if big else 5, salt=2400 + i, profile=p, draws=8000 if big else 1500)
                      for i, p in enumerate(("space", "p224", "big", "p224", "flat", "space") if big else ("space", "p224", "big"))]}
