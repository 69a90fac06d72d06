"""The wrapped criterion: requests, batches and what is stored (C04, C16, C25)."""
import math

import numpy as np

from vh.cases import kind
from vh.numbers import BIG


def _x(i):
    return np.array([1.0 + 2 * i, (i * i) % 7 / 4])


def _value(ft, m, form):
    if ft == "scalar":
        v = float(m)
        return {"int": int(m), "0d": np.array(v), "np": np.float64(v)}.get(form, v)
    v = [float(m), 2.0]
    return v if form == "list" else (tuple(v) if form == "tuple" else np.array(v))


def _code(v):
    v = float(v)
    if math.isnan(v):
        return -999
    if math.isinf(v):
        return BIG if v > 0 else -BIG
    return int(v) if v == int(v) else -998


@kind("wrapped")
def _wrapped(c):
    from tranquilo.history import History
    from tranquilo.wrap_criterion import get_wrapped_criterion
    ft, n = c["ft"], c["npts"]
    h = History(functype=ft)
    h.add_xs(np.array([_x(i) for i in range(n)]))
    for k, i in enumerate(c["pre"]):
        h.add_evals([i], [_value(ft, k + 1, "np")])
    where = {_x(i).tobytes(): i for i in range(n)}
    log = {"calls": 0, "cores": [], "sizes": [], "args": []}
    real = c["evaluator"] != "own"
    seen = {"k": 0}

    def outcome(k):
        o = c["script"][k]
        v = _value(ft, 101 + k, c["form"])
        if o == "exc":
            raise [ValueError, ZeroDivisionError, RuntimeError][k % 3]("fault")
        if o == "ok":
            return v
        bad = {"nan": math.nan, "nanall": math.nan, "inf": math.inf, "ninf": -math.inf}[o]
        if ft == "scalar":
            return bad
        v = np.array(v, dtype=float)
        if o == "nanall":
            v[:] = bad
        else:
            v[0 if o == "nan" else -1] = bad
        return v

    def crit(x):
        x = np.asarray(x)
        k = seen["k"]
        if real:
            log["args"].append(where.get((x + 0.0).tobytes(), -1))
            seen["k"] += 1
        try:
            return outcome(k)
        finally:
            if c["mutate"]:
                x[...] = 55.0

    def evaluator(func, arguments, *, n_cores=1, error_handling="continue", **kw):
        import traceback
        log["calls"] += 1
        log["cores"].append(int(n_cores))
        log["sizes"].append(len(arguments))
        base = len(log["args"])
        log["args"] += [where.get((np.array(a, dtype=float) + 0.0).tobytes(), -1)
                        for a in arguments]
        res = [None] * len(arguments)
        order = list(range(len(arguments)))
        order = order[::-1] if c["order"] == "reversed" else order
        for j in order:
            seen["k"] = base + j
            try:
                res[j] = func(arguments[j])
            except Exception:  # noqa: BLE001
                res[j] = traceback.format_exc()
        return res

    f = get_wrapped_criterion(crit, "joblib" if real else evaluator, c["cores"], h)
    info = {np.int64(e["i"]) if c["npint"] else e["i"]: e["n"] for e in c["info"]}
    copy = dict(info)
    f(info)
    if real and log["args"]:
        log["calls"] = 1
    every = list(range(n))
    out = dict(log)
    out["nfun"] = int(h.get_n_fun())
    if out["nfun"]:
        vec, fv = h.get_fvecs(every), h.get_fvals(every)
        out["vec"] = [[[_code(v) for v in np.atleast_1d(r)] for r in vec[i]] for i in every]
        out["fv"] = [[_code(v) for v in fv[i]] for i in every]
    else:
        out["vec"] = out["fv"] = [[] for _ in every]
    out["xs"] = int(np.array_equal(h.get_xs(every), np.array([_x(i) for i in every])))
    out["pure"] = int(info == copy and list(info) == list(copy))
    return out


def rnd_wrapped(rng, k, faults=True):
    n = int(rng.integers(1, 7))
    ft = ["least_squares", "scalar", "likelihood"][k % 3]
    pre = [0] + rng.integers(0, n, size=int(rng.integers(0, 4))).tolist()
    m = int(rng.integers(0 if rng.random() < 0.1 else 1, n + 1))
    idx = rng.permutation(n)[:m].tolist()
    info = [{"i": i, "n": int(rng.integers(0 if rng.random() < 0.15 else 1, 4))} for i in idx]
    total = sum(e["n"] for e in info)
    p = float(rng.choice([0.0, 0.2, 0.5, 1.0])) if faults else 0.0
    kinds = ["exc", "nan", "nanall", "inf", "ninf"]
    script = [str(rng.choice(kinds)) if rng.random() < p else "ok" for _ in range(total)]
    if rng.random() < 0.1 and total and faults and "exc" not in script:
        script = ["exc"] * total
    own = rng.random() < 0.9
    return {"kind": "wrapped", "ft": ft, "npts": n, "pre": pre, "info": info, "script": script,
            "cores": int(rng.integers(1, 5)) if own else 1, "evaluator": "own" if own else "joblib",
            "order": str(rng.choice(["forward", "reversed"])), "mutate": int(rng.random() < 0.3),
            "npint": int(rng.random() < 0.5),
            "form": str(rng.choice(["np", "list", "tuple", "int", "0d"]))}
