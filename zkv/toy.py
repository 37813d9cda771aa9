"""
Transparent groups.

Stand-ins for the petlib and bplib groups whose elements are coefficient vectors over Z_q, so that
the discrete logarithms of everything the library computes can be read by the specification.  They
replace only the two third-party libraries below zksk (same interface, same failure behaviour); all
the zksk code runs unchanged on top of them.

`install(profile)` must run before zksk is imported.
"""
import hashlib

import petlib.ec
import petlib.pack
import bplib.bp
from petlib.bn import Bn

GROUPS = []          # [{"q":, "d":}], in the numbering used by the specification (1-based)
EC_NUM = {}          # nid -> group number
BP_NUM = {}          # nid -> (G1, G2, GT) group numbers
DEFAULT_NID = 713
DEFAULT_BP_NID = 1


def _int(x):
    """Scalars as petlib takes them: Bn, or an int that fits in a machine word."""
    if isinstance(x, Bn):
        return int(x)
    return int(Bn.from_num(x))


def _check(cond):
    if not cond:
        raise Exception("EC exception")


UNITS = None         # input -> coordinate, when hashing to a group gives unit vectors


def _bn(n):
    return Bn.from_decimal(str(n))


def _hash_vec(tag, data, q, d):
    if UNITS is not None:
        i = UNITS.setdefault((tag, bytes(data)), len(UNITS) + 1)
        return tuple(1 if j == i % d else 0 for j in range(d))
    nb = 16 if q < 65536 else 48
    ctr = 0
    while True:
        out = []
        for i in range(d):
            h = hashlib.sha512(b"%s|%d|%d|" % (tag, ctr, i) + bytes(data)).digest()
            out.append(int.from_bytes(h[:nb], "big") % q)
        if any(out):
            return tuple(out)
        ctr += 1


def _exp(num, v):
    if not any(v):
        return bytes([0])
    q = GROUPS[num - 1]["q"]
    nb = 2 if q < 65536 else 32
    x, sign = _fold(v, q)
    return bytes([2 + 2 * num + sign]) + b"".join(int(c).to_bytes(nb, "big") for c in x)


def _fold(v, q):
    """A point up to its sign, and the sign: what the two coordinates of a curve point are."""
    v = tuple(v)
    w = tuple(-c % q for c in v)
    return (v, 0) if v <= w else (w, 1)


def _imp(data, num, q, d):
    data = bytes(data)
    if data == b"\x00":
        return (0,) * d
    nb = 2 if q < 65536 else 32
    if len(data) != 1 + nb * d or data[0] // 2 != 1 + num:
        raise Exception("EC exception")
    v = tuple(int.from_bytes(data[1 + nb * i:1 + nb + nb * i], "big") for i in range(d))
    if any(x >= q for x in v) or not any(v):
        raise Exception("EC exception")
    if data[0] % 2:
        v = tuple(-c % q for c in v)
    return v


class EcGroup(object):
    @staticmethod
    def list_curves():
        return {n: "toy-%d" % n for n in EC_NUM}

    def __init__(self, nid=713, optimize_mult=True):
        nid = int(nid)
        if nid not in EC_NUM:
            raise Exception("EC exception")
        self._nid = nid
        self.ecg = ("toy", nid)
        self.num = EC_NUM[nid]
        self.q = GROUPS[self.num - 1]["q"]
        self.d = GROUPS[self.num - 1]["d"]

    def parameters(self):
        return {"p": _bn(self.q), "a": Bn(0), "b": Bn(0)}

    def generator(self):
        return EcPt._mk(self, (1,) + (0,) * (self.d - 1))

    def infinite(self):
        return EcPt._mk(self, (0,) * self.d)

    def order(self):
        return _bn(self.q)

    def sum(self, elems):
        res = self.infinite()
        for e in elems:
            res = res + e
        return res

    def wsum(self, weights, elems):
        assert len(weights) == len(elems)
        assert all(isinstance(e, Bn) for e in weights)
        assert all(isinstance(e, EcPt) for e in elems)
        res = self.infinite()
        for w, e in zip(weights, elems):
            res = res + w * e
        return res

    def __eq__(self, other):
        return self.ecg == other.ecg

    def __ne__(self, other):
        return not self.__eq__(other)

    def __repr__(self):
        return "EcGroup(%d)" % self._nid

    def nid(self):
        return self._nid

    def check_point(self, pt):
        return pt.group == self

    def hash_to_point(self, hinput):
        return EcPt._mk(self, _hash_vec(b"ec%d" % self._nid, hinput, self.q, self.d))


class EcPt(object):
    __slots__ = ["v", "group"]
    POINT_CONVERSION_UNCOMPRESSED = 4
    POINT_CONVERSION_COMPRESSED = 2

    @staticmethod
    def _mk(group, v):
        p = EcPt(group)
        p.v = tuple(v)
        return p

    @staticmethod
    def from_binary(sbin, group):
        return EcPt._mk(group, _imp(sbin, group.num, group.q, group.d))

    def __init__(self, group):
        self.group = group
        self.v = (0,) * group.d

    def __copy__(self):
        return EcPt._mk(self.group, self.v)

    def __add__(self, other):
        _check(isinstance(other, EcPt))
        _check(other.group == self.group)
        q = self.group.q
        return EcPt._mk(self.group, [(a + b) % q for a, b in zip(self.v, other.v)])

    def __add_inplace__(self, other):
        self.v = (self + other).v

    def __neg__(self):
        return EcPt._mk(self.group, [(-a) % self.group.q for a in self.v])

    def __neg_inplace__(self):
        self.v = (-self).v

    def __sub__(self, other):
        return self + (-other)

    def __rmul__(self, other):
        k = _int(other) % self.group.q
        return EcPt._mk(self.group, [(k * a) % self.group.q for a in self.v])

    def __rmul_inplace__(self, other):
        self.v = self.__rmul__(other).v

    def __eq__(self, other):
        _check(isinstance(other, EcPt))
        _check(other.group == self.group)
        return self.v == other.v

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return self.export().__hash__()

    def pt_add(self, other):
        return self + other

    def pt_add_inplace(self, other):
        self.__add_inplace__(other)

    def pt_double(self):
        return self + self

    def pt_double_inplace(self):
        self.v = (self + self).v

    def pt_neg(self):
        return -self

    def pt_neg_inplace(self):
        self.__neg_inplace__()

    def pt_mul(self, scalar):
        return self.__rmul__(scalar)

    def pt_mul_inplace(self, scalar):
        self.__rmul_inplace__(scalar)

    def pt_eq(self, other):
        return self == other

    def export(self, form=2):
        return _exp(self.group.num, self.v)

    def is_infinite(self):
        return not any(self.v)

    def get_affine(self):
        if self.is_infinite():
            raise Exception("EC Infinity has no affine coordinates.")
        x, sign = _fold(self.v, self.group.q)
        return (_bn(int.from_bytes(b"".join(int(c).to_bytes(32, "big") for c in x), "big")), _bn(1 + sign))

    def __str__(self):
        return self.export().hex()

    def __repr__(self):
        return "EcPt(%s)" % self.__str__()


class BpGroup(object):
    def __init__(self, nid=1, optimize_mult=True):
        if nid not in BP_NUM:
            raise Exception("EC exception")
        self.nid = nid
        self.optimize_mult = optimize_mult
        self.nums = BP_NUM[nid]
        self.q = GROUPS[self.nums[0] - 1]["q"]

    def order(self):
        return _bn(self.q)

    def gen1(self):
        return G1Elem._mk(self, (1,) + (0,) * (GROUPS[self.nums[0] - 1]["d"] - 1))

    def gen2(self):
        return G2Elem._mk(self, (1,))

    def hashG1(self, sbin):
        return G1Elem._mk(self, _hash_vec(b"g1", sbin, self.q, GROUPS[self.nums[0] - 1]["d"]))

    def pair(self, g1, g2):
        if not (isinstance(g1, G1Elem) and isinstance(g2, G2Elem)):
            raise TypeError("pairing of the wrong elements")
        return GTElem._mk(self, [(g2.v[0] * a) % self.q for a in g1.v])

    def __copy__(self):
        return BpGroup(self.nid, self.optimize_mult)

    def __eq__(self, other):
        return other.nid == self.nid

    def __ne__(self, other):
        return not self == other


class _Elem(object):
    kind = 0

    def __init__(self, group):
        self.group = group
        self.num = group.nums[self.kind]
        self.q = group.q
        self.d = GROUPS[self.num - 1]["d"]
        self.v = (0,) * self.d

    @classmethod
    def _mk(cls, group, v):
        p = cls(group)
        p.v = tuple(v)
        assert len(p.v) == p.d
        return p

    def _same(self, other):
        if type(other) is not type(self):
            raise TypeError("mixing elements of different groups")

    def __copy__(self):
        return self._mk(self.group, self.v)

    def eq(self, other):
        self._same(other)
        return self.v == other.v

    def __eq__(self, other):
        return self.eq(other)

    def __ne__(self, other):
        return not self.eq(other)

    def __hash__(self):
        return self.export().__hash__()

    def _plus(self, other):
        self._same(other)
        return self._mk(self.group, [(a + b) % self.q for a, b in zip(self.v, other.v)])

    def _times(self, k):
        k = _int(k) % self.q
        return self._mk(self.group, [(k * a) % self.q for a in self.v])

    def export(self, form=0):
        return _exp(self.num, self.v)

    @classmethod
    def from_bytes(cls, sbin, group):
        num = group.nums[cls.kind]
        return cls._mk(group, _imp(sbin, num, group.q, GROUPS[num - 1]["d"]))


class _Add(_Elem):
    @classmethod
    def inf(cls, group):
        return cls(group)

    def isinf(self):
        return not any(self.v)

    def add(self, other):
        return self._plus(other)

    def double(self):
        return self._plus(self)

    def neg(self):
        return self._times(-1)

    def mul(self, k):
        return self._times(k)

    def __add__(self, other):
        return self._plus(other)

    def __sub__(self, other):
        return self._plus(other.neg())

    def __neg__(self):
        return self.neg()

    def __mul__(self, k):
        return self._times(k)

    __rmul__ = __mul__


class G1Elem(_Add):
    kind = 0


class G2Elem(_Add):
    kind = 1


class GTElem(_Elem):
    kind = 2

    @classmethod
    def one(cls, group):
        return cls(group)

    def isone(self):
        return not any(self.v)

    def mul(self, other):
        return self._plus(other)

    def inv(self):
        return self._times(-1)

    def sqr(self):
        return self._plus(self)

    def exp(self, k):
        return self._times(k)

    def __mul__(self, other):
        return self._plus(other)

    def __pow__(self, k, modulo=None):
        return self._times(k)


def install(profile):
    """
    profile: list of {"kind": "ec", "nid", "q", "d"} or {"kind": "bp", "nid", "q", "d"}.
    """
    global UNITS
    UNITS = None
    del GROUPS[:]
    EC_NUM.clear()
    BP_NUM.clear()
    for g in profile:
        if g.get("units"):
            UNITS = {}
        if g["kind"] == "ec":
            GROUPS.append({"q": g["q"], "d": g["d"]})
            EC_NUM[g["nid"]] = len(GROUPS)
        else:
            n = len(GROUPS)
            GROUPS.extend([{"q": g["q"], "d": g["d"]}, {"q": g["q"], "d": 1},
                           {"q": g["q"], "d": g["d"]}])
            BP_NUM[g["nid"]] = (n + 1, n + 2, n + 3)
    petlib.ec.EcGroup, petlib.ec.EcPt = EcGroup, EcPt
    petlib.pack.EcGroup, petlib.pack.EcPt = EcGroup, EcPt
    petlib.pack._init_coders()
    bplib.bp.BpGroup, bplib.bp.G1Elem = BpGroup, G1Elem
    bplib.bp.G2Elem, bplib.bp.GTElem = G2Elem, GTElem


# Profiles.  "big": formal vectors, "tiny-q": one-dimensional groups with a few elements, where
# commitments and statements collide all the time.
def profile(name):
    if name == "big":
        q, r, d = 10007, 9973, 8
    elif name == "space":
        q, r, d = 10007, 9973, 48
    elif name.startswith("tiny"):
        q = int(name[4:])
        r = {2: 3, 3: 5, 5: 7, 7: 11, 11: 7}[q]
        d = 1
    elif name.startswith("flat"):
        q, r, d = 10007, 9973, 1
    elif name in ("huge", "hugeflat"):
        # numbers of the size used in practice; formal vectors, or one dimension
        q, r, d = 2 ** 256 - 189, 2 ** 256 - 357, 24 if name == "huge" else 1
        return [dict(g, units=name == "huge") for g in (
            {"kind": "ec", "nid": 713, "q": q, "d": d}, {"kind": "ec", "nid": 415, "q": q, "d": d},
            {"kind": "ec", "nid": 714, "q": r, "d": d}, {"kind": "bp", "nid": 1, "q": q, "d": d})]
    else:
        raise ValueError(name)
    return [{"kind": "ec", "nid": 713, "q": q, "d": d},
            {"kind": "ec", "nid": 415, "q": q, "d": d},
            {"kind": "ec", "nid": 714, "q": r, "d": d},
            {"kind": "bp", "nid": 1, "q": q, "d": d}]
