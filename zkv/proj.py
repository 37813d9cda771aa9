"""Projection of the values the library handles into the tagged values of the specification."""
import hashlib

from petlib.bn import Bn

LIMB = 16


def limbs(n):
    out = []
    while n:
        out.append(n & 0xFFFF)
        n >>= LIMB
    return out or [0]


def pint(n):
    n = int(n)
    return {"t": "I", "n": 1 if n < 0 else 0, "l": limbs(abs(n))}


def ppt(num, v):
    return {"t": "P", "g": num, "v": [int(x) for x in v]}


def project(x, points):
    """points: function mapping a point object to (group number, vector), or None."""
    if x is None:
        return {"t": "N"}
    if isinstance(x, (Bn, int)):
        return pint(x)
    if isinstance(x, (list, tuple)):
        return {"t": "L", "e": [project(y, points) for y in x]}
    if isinstance(x, dict):
        return {"t": "D", "e": [[str(k), project(v, points)] for k, v in x.items()]}
    if isinstance(x, str):
        return {"t": "S", "s": "s" + x.encode().hex()}
    if isinstance(x, (bytes, bytearray)):
        return {"t": "S", "s": "b" + bytes(x).hex()}
    pt = points(x)
    if pt is not None:
        return ppt(*pt)
    return {"t": "U", "s": type(x).__name__}


def text(s):
    """Messages and names as short strings, equal exactly for equal messages."""
    if s is None:
        return "none"
    if not isinstance(s, str):
        return "x" + repr(s)
    h = s.encode("utf-8", "surrogatepass").hex()
    return "m" + (h if len(h) <= 48 else hashlib.sha256(h.encode()).hexdigest())


def toy_points(x):
    from . import toy
    pt = getattr(x, "pt", x)
    if isinstance(pt, toy.EcPt):
        return (pt.group.num, pt.v)
    if isinstance(pt, toy._Elem) and hasattr(x, "bp"):
        return (pt.num, pt.v)
    return None
