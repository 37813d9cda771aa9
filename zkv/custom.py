"""User-defined extended primitives, as the library's documentation describes them."""
import random

_classes = {}


def check_args(val, args, kwargs):
    """Hooks that look at what verification was asked for."""
    from zksk.exceptions import ValidationError
    strict = (args[0] if args else kwargs.get("policy")) == "strict"
    if val == "arg" and strict or val == "argneed" and not strict:
        raise ValidationError("against the policy")


def make_plain(cls, inner, val):
    """A primitive that only defines how to construct its inner statement."""
    from zksk.extended import ExtendedProofStmt
    from zksk.exceptions import ValidationError
    key = ("plain", cls)
    if key not in _classes:
        class Plain(ExtendedProofStmt):
            def __init__(self, inner, val):
                self.inner = inner
                self.val = val

            def has_missing_secrets(self):
                return any(s.value is None for s in self.inner.get_secret_vars())

            def construct_stmt(self, precommitment):
                return self.inner

            def validate(self, precommitment, *args, **kwargs):
                check_args(self.val, args, kwargs)
                if self.val == "never":
                    raise ValidationError("never valid")
        if cls == "Plain":
            # left to the library
            del Plain.has_missing_secrets
        Plain.__name__ = cls
        Plain.__qualname__ = cls
        _classes[key] = Plain
    return _classes[key](inner, val)


def make_pre(kind, cls, g, h, x, val, sim):
    """
    A primitive with a precommitment: the prover draws t and sends P = x g + t h.  The inner
    statement is a representation of P (xpt), or of P and of P' = t h' + x g' (xtup).
    """
    from zksk.extended import ExtendedProofStmt
    from zksk.exceptions import ValidationError
    from zksk import Secret, DLRep
    key = (kind, cls, bool(sim))
    if key not in _classes:
        class Pre(ExtendedProofStmt):
            def __init__(self, g, h, x, val):
                self.g, self.h, self.x, self.val = g, h, x, val
                self.t = Secret()
                self.calls = []

            def has_missing_secrets(self):
                return self.x.value is None

            def precommit(self):
                q = self.g.group.order()
                self.t.value = q.random()
                P = self.x.value * self.g + self.t.value * self.h
                return P if kind == "xpt" else (P, ["label", 7])

            def construct_stmt(self, precommitment):
                if kind == "xpt":
                    return DLRep(precommitment, self.x * self.g + self.t * self.h)
                P = precommitment[0]
                return DLRep(P, self.x * self.g + self.t * self.h) & DLRep(
                    P, self.t * self.h + self.x * self.g)

            def validate(self, precommitment, *args, **kwargs):
                P = precommitment if kind == "xpt" else precommitment[0]
                check_args(self.val, args, kwargs)
                if self.val == "never":
                    raise ValidationError("never valid")
                if self.val == "notinf" and P == self.g.group.infinite():
                    raise ValidationError("identity")
                if self.val == "even" and P.v[-1] % 2 != 0:
                    raise ValidationError("odd")

        if sim:
            def simulate_precommit(self):
                q = self.g.group.order()
                P = q.random() * self.g + q.random() * self.h
                return P if kind == "xpt" else (P, ["label", 7])
            Pre.simulate_precommit = simulate_precommit
        Pre.__name__ = cls
        Pre.__qualname__ = cls
        _classes[key] = Pre
    return _classes[key](g, h, x, val)


def encode_num(form, m):
    """A small number in one of several forms."""
    from petlib.bn import Bn
    return {"dict2": lambda: {"z": m, "a": [m, 7]}, "neg": lambda: Bn(-m), "huge": lambda: Bn(2).pow(320) + Bn(m),
            "int": lambda: m, "list": lambda: [7] * m, "dict": lambda: {"n": m} if m else {}, "str": lambda: "a" * m,
            "bytes": lambda: b"\x00" * m, "nest": lambda: [[m], {"k": [m, "x"]}]}[form]()


def decode_num(form, v):
    for m in range(3):
        w = encode_num(form, m)
        if same_form(v, w):
            return m
    raise ValueError("malformed precommitment")


def same_form(v, w):
    from petlib.bn import Bn
    if isinstance(w, (int, Bn)):
        return isinstance(v, (int, Bn)) and not isinstance(v, bool) and v == w
    if isinstance(w, (list, tuple)):
        return isinstance(v, (list, tuple)) and len(v) == len(w) and all(same_form(a, b) for a, b in zip(v, w))
    if isinstance(w, dict):
        return isinstance(v, dict) and list(v) == list(w) and all(same_form(v[a], w[a]) for a in w)
    return type(v) is type(w) and v == w


def make_dat(cls, g, h, P, x, form, val, sim):
    """
    A primitive whose precommitment is a number m, written in some form; it shows knowledge of x and
    of m in P + m h = x g + m h.
    """
    from zksk.extended import ExtendedProofStmt
    from zksk.exceptions import ValidationError
    from zksk import Secret, DLRep
    key = ("dat", cls, bool(sim))
    if key not in _classes:
        class Dat(ExtendedProofStmt):
            def __init__(self, g, h, P, x, form, val):
                self.g, self.h, self.P, self.x, self.form, self.val = g, h, P, x, form, val
                self.t = Secret()

            def has_missing_secrets(self):
                return self.x.value is None

            def precommit(self):
                m = random.SystemRandom().randrange(3)
                self.t.value = m
                return encode_num(self.form, m)

            def construct_stmt(self, precommitment):
                lhs = self.P
                for _ in range(decode_num(self.form, precommitment)):
                    lhs = lhs + self.h
                return DLRep(lhs, self.x * self.g + self.t * self.h)

            def validate(self, precommitment, *args, **kwargs):
                check_args(self.val, args, kwargs)
                if self.val == "never" or self.val == "odd" and decode_num(self.form, precommitment) % 2 == 0:
                    raise ValidationError("not valid")

        if sim:
            def simulate_precommit(self):
                return encode_num(self.form, random.SystemRandom().randrange(3))
            Dat.simulate_precommit = simulate_precommit
        Dat.__name__ = cls
        Dat.__qualname__ = cls
        _classes[key] = Dat
    return _classes[key](g, h, P, x, form, val)
