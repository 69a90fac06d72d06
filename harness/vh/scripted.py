"""Criteria whose values at candidates follow a script generated from the specification."""
import math

import numpy as np


class Script:
    """outcomes: what the evaluations made by the acceptance step return, in order.

    b better, e equal to the current value, w worse, f raises, x NaN, i plus infinity,
    n minus infinity; afterwards the values of the base criterion are returned.
    """

    def __init__(self, outcomes, functype, base):
        self.todo = list(outcomes)
        self.functype = functype
        self.base = base
        self.rec = None
        self.used = 0

    def prepare(self, rec):
        self.rec = rec

    def criterion(self, x):
        rec = self.rec
        if rec is None or not rec.inaccept or self.used >= len(self.todo):
            return self.base(x)
        o = self.todo[self.used]
        self.used += 1
        i = rec.cur["i"] if rec.cur else 0
        v = np.array(rec.vecs[i][0], dtype=float)
        if o == "f":
            raise ValueError("scripted failure")
        if o == "b":
            v = v - 1 - self.used if self.functype != "least_squares" else 0.75 * v
        elif o == "w":
            v = v + 1 if self.functype != "least_squares" else 1.5 * v
        elif o != "e":
            v[-1] = {"x": math.nan, "i": math.inf, "n": -math.inf}[o]
        return float(v[0]) if self.functype == "scalar" else v

    def summary(self):
        return {"used": self.used}
