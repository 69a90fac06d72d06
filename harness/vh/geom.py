"""Geometry of regions and models, independent of the code under test."""
import math

import numpy as np


def half_width(tr):
    """Half side length of the cube with the volume of the ball."""
    n = len(tr.center)
    return math.exp(
        0.5 * math.log(math.pi) + math.log(tr.radius) - math.log(2) - math.lgamma(n / 2 + 1) / n
    )


def box(tr):
    """Is the region a box, and its lower and upper corner."""
    c = np.asarray(tr.center, dtype=float)
    lo, hi = tr.bounds.lower if tr.bounds is not None else None, (
        tr.bounds.upper if tr.bounds is not None else None)
    binding = False
    if lo is not None:
        binding |= bool(np.min(c - lo) <= tr.radius)
    if hi is not None:
        binding |= bool(np.min(hi - c) <= tr.radius)
    if not binding:
        return False, None, None
    w = half_width(tr)
    a, b = c - w, c + w
    if lo is not None:
        a = np.maximum(a, lo)
    if hi is not None:
        b = np.minimum(b, hi)
    return True, a, b


def to_unit(tr, x):
    is_box, a, b = box(tr)
    if is_box:
        return 2 * (x - a) / (b - a) - 1
    return (x - tr.center) / tr.radius


def unit_norm(tr, x):
    is_box, a, b = box(tr)
    u = to_unit(tr, np.asarray(x, dtype=float))
    return float(np.max(np.abs(u))) if is_box else float(np.linalg.norm(u))


def predict(model, u):
    out = float(model.intercept) + float(np.dot(model.linear_terms, u))
    if model.square_terms is not None:
        out += 0.5 * float(u @ model.square_terms @ u)
    return out
