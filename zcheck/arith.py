"""Linear normal form of numeric terms, for comparing quantities however they
are written."""
from fractions import Fraction
from .terms import *
from .terms import T


def num(t):
    v = kval(t) if t.op == "k" else None
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return None
    return Fraction(v).limit_denominator(10**12)


def lin(t):
    """{term or None: coefficient}; None stands for the constant 1."""
    n = num(t)
    if n is not None:
        return {None: n} if n else {}
    if t.op in ("add", "sub") and len(t.args) == 2:
        a, b = lin(t.args[0]), lin(t.args[1])
        return plus(a, b, 1 if t.op == "add" else -1)
    if t.op in ("usub", "neg", "unUSub") and len(t.args) == 1:
        return plus({}, lin(t.args[0]), -1)
    if t.op == "mul" and len(t.args) == 2:
        a, b = lin(t.args[0]), lin(t.args[1])
        for x, y in ((a, b), (b, a)):
            if not x:
                return {}
            if list(x) == [None]:
                return {k: v * x[None] for k, v in y.items()}
        out = {}
        for k, v in a.items():
            for l, w in b.items():
                out = plus(out, {product(k, l): v * w})
        return out
    if t.op == "div" and len(t.args) == 2:
        b = lin(t.args[1])
        if list(b) == [None]:
            return {k: v / b[None] for k, v in lin(t.args[0]).items()}
    if t.op == "pure" and t.args and t.args[0] in ("float", "int") and \
            len(t.args) > 1 and isinstance(t.args[1], tuple) and \
            len(t.args[1]) == 1 and t.args[0] == "float":
        return lin(t.args[1][0])
    if t.op == "float" and len(t.args) == 1 and isinstance(t.args[0], T):
        return lin(t.args[0])
    return {t: Fraction(1)}


def product(a, b):
    if a is None or b is None:
        return b if a is None else a
    return mk("mul", *sorted((a, b), key=lambda t: t.id))


def plus(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if not out[k]:
            del out[k]
    return out


def difference(a):
    """For an atom lt(x, y): the linear form of x - y, which is below zero."""
    return plus(lin(a.args[0]), lin(a.args[1]), -1)


def is_now(t):
    return t.op == "res" and isinstance(t.args[0], str) and \
        t.args[0] in ("time.time",)
