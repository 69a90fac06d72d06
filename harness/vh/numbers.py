"""Order-isomorphic integer encoding of the floating point numbers of one trace."""
import math
from fractions import Fraction

BIG = 2_000_000_000


class N:
    """A number that is replaced by its rank.

    Numbers that are the result of floating point calculations are identified with an
    expected number (snap) if they agree up to rounding errors.
    """

    __slots__ = ("v", "snap")

    def __init__(self, v, snap=()):
        self.v = to_exact(v)
        snap = [to_exact(c) for c in snap]
        if self.v in snap:
            return
        for c in snap:
            if isinstance(c, Fraction) and isinstance(self.v, Fraction):
                if abs(c - self.v) <= Fraction(1, 10**10) * max(abs(c), abs(self.v)):
                    self.v = c
                    break


def to_exact(v):
    if isinstance(v, Fraction):
        return v
    v = float(v)
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return math.inf if v > 0 else -math.inf
    return Fraction(v)


def _key(v):
    if v == "nan":
        return (3, Fraction(0))
    if v == math.inf:
        return (2, Fraction(0))
    if v == -math.inf:
        return (0, Fraction(0))
    return (1, v)


def encode(obj):
    """Replace all N in a nested structure by their ranks (1, 2, ...)."""
    seen = set()

    def collect(o):
        if isinstance(o, N):
            seen.add(o.v)
        elif isinstance(o, dict):
            for x in o.values():
                collect(x)
        elif isinstance(o, (list, tuple)):
            for x in o:
                collect(x)

    collect(obj)
    rank = {v: k + 1 for k, v in enumerate(sorted(seen, key=_key))}

    def sub(o):
        if isinstance(o, N):
            return rank[o.v]
        if isinstance(o, dict):
            return {k: sub(x) for k, x in o.items()}
        if isinstance(o, (list, tuple)):
            return [sub(x) for x in o]
        return o

    return sub(obj)


def fp(v, one=1_000_000):
    """Fixed point number, saturated to the 32 bit range."""
    v = float(v)
    if math.isnan(v) or v > BIG / one:
        return BIG
    if v < -BIG / one:
        return -BIG
    return int(round(v * one))
