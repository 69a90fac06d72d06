"""Calls of single components: inputs come from the specification (GenCases) or from a seeded
random generator, the recorded inputs and outputs are judged by the specification (TraceCases)."""
import json
import math
import shutil
import zlib

import numpy as np

from vh import tlc
from vh.env import SEED, THOROUGH
from vh.main import pmap
from vh.numbers import BIG, N, encode, fp

EXEC = {}


def kind(name):
    def deco(f):
        EXEC[name] = f
        return f
    return deco


def generate(name, big=None):
    """All inputs of a kind, enumerated by TLC."""
    big = THOROUGH if big is None else big
    tmp = tlc.scratch()
    try:
        f = tmp / "inputs.json"
        rc, out, _ = tlc.run_tlc("GenCases", env={"VH_KIND": name, "VH_OUT": f,
                                                 "VH_BIG": "1" if big else "0"}, workers=1)
        if not f.exists():
            raise tlc.TlcError(out[-3000:])
        return json.loads(f.read_text())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def execute(c):
    import warnings
    warnings.filterwarnings("ignore")
    c = dict(c)
    np.seterr(all="ignore")
    try:
        out = EXEC[c["kind"]](c)
    except Exception as e:  # noqa: BLE001
        out = {"err": f"{type(e).__name__}: {e}"[:300]}
    c["out"] = out
    return encode(c)


def run_cases(run, inputs, label=None):
    inputs = list(inputs)
    res = pmap(execute, inputs)
    entries = []
    for k, (i, r) in enumerate(zip(inputs, res)):
        if "harness" in r:
            if r["harness"].startswith("Hang"):
                run.violate(f"{i['kind']}_{k}", r["harness"], {"input": i})
            else:
                run.violate(i.get("case", f"{i['kind']}_{k}"), "the outcome of the call cannot be "
                            "expressed in the specification", {"input": i, "error": r["harness"]})
            continue
        run.count(f"cases_{i['kind']}")
        entries.append((i.get("case", f"{i['kind']}_{k}"), r, {"input": i}))
    run.absorb("TraceCases", entries)


def generated(*names):
    def go(run):
        for n in names:
            run_cases(run, generate(n))
    return go


def randomly(fn, quick, thorough):
    """fn(rng, k) -> input."""
    def go(run):
        n = thorough if THOROUGH else quick
        run_cases(run, [fn(np.random.default_rng([SEED, 77, k]), k) for k in range(n)])
    return go


def val(v):
    """Number of a generated input: +-2000000000 stands for infinity."""
    return math.inf if v >= BIG else (-math.inf if v <= -BIG else float(v))


# Affine frames (offset, scale) in which the integer points of a case are placed.  Differences of
# points are exact in every frame, and no claim depends on where or how large a region is.
FRAMES = [(0.0, 1.0), (2.0**17, 2.0**-13), (0.0, 2.0**-30), (0.0, 2.0**20), (-(2.0**20), 1.0),
          (2.0**9, 2.0**-3)]


class Frame:
    """Places integer points into the frame of a case, chosen by its content."""

    def __init__(self, c, d, allowed=(0, 0, 0, 1, 2, 3, 4)):
        if "frame" not in c:
            key = json.dumps({k: v for k, v in c.items()}, sort_keys=True, default=str)
            c["frame"] = allowed[zlib.crc32(key.encode()) % len(allowed)]
        off, self.s = FRAMES[c["frame"]]
        self.off = off * (1 - 2 * (np.arange(d) % 2))

    def put(self, x):
        return self.off + self.s * np.asarray(x, dtype=float)

    def back(self, x):
        return (np.asarray(x, dtype=float) - self.off) / self.s


# ------------------------------------------------------------------- filters
class _State:
    def __init__(self, x, index, radius):
        from tranquilo.region import Region
        self.x = x
        self.index = index
        self.trustregion = Region(center=x, radius=radius)


def _cloud(c):
    f = Frame(c, len(c["pts"][0]))
    pts = f.put(c["pts"])
    n = len(pts)
    if "idx" not in c:
        c["idx"] = [3 * k + 2 for k in range(n)]
        c["cur"] = c["idx"][c["cpos"] - 1]
    idx = np.array(c["idx"])
    state = _State(f.put(c["cx"]), c["cur"], f.s * math.sqrt(c["r2"]))
    return pts, idx, state


def _kept(c, pts, idx, xs, kept, before):
    kept = [int(i) for i in np.atleast_1d(kept)]
    xs = np.atleast_2d(np.asarray(xs, dtype=float))
    where = {i: k for k, i in enumerate(c["idx"])}
    aligned = len(xs) == len(kept) and all(
        i in where and np.array_equal(xs[k], before[0][where[i]])
        for k, i in enumerate(kept))
    pure = np.array_equal(before[0], pts) and np.array_equal(before[1], idx)
    return {"kept": kept, "aligned": int(aligned), "pure": int(pure)}


@kind("drop")
def _drop(c):
    from tranquilo.filter_points import drop_worst_points
    pts, idx, state = _cloud(c)
    before = pts.copy(), idx.copy()
    xs, kept = drop_worst_points(pts, idx, state, c["n"])
    return _kept(c, pts, idx, xs, kept, before)


@kind("filter")
def _filter(c):
    from tranquilo.filter_points import get_sample_filter
    pts, idx, state = _cloud(c)
    before = pts.copy(), idx.copy()
    f = get_sample_filter(c["filter"], {"n_max_factor": c["factor"]})
    xs, kept = f(xs=pts, indices=idx, state=state, target_size=c["target"], history=None,
                 n_evals_per_point=1)
    return _kept(c, pts, idx, xs, kept, before)


@kind("cluster")
def _cluster(c):
    from tranquilo.clustering import cluster
    f = Frame(c, len(c["pts"][0]))
    pts = f.put(c["pts"])
    before = pts.copy()
    labels, centers = cluster(pts, f.s * math.sqrt(c["eps2"]))
    return {"labels": [int(i) for i in labels], "centers": [int(i) for i in centers],
            "pure": int(np.array_equal(before, pts))}


@kind("clusterfilter")
def _clusterfilter(c):
    from tranquilo.filter_points import get_sample_filter
    c.setdefault("cpos", 1)
    c["cx"], c["r2"] = c["pts"][0], 1
    pts, idx, state = _cloud(c)
    before = pts.copy(), idx.copy()
    xs, kept = get_sample_filter("clustering")(
        xs=pts, indices=idx, state=state, target_size=3, history=None, n_evals_per_point=1)
    return _kept(c, pts, idx, xs, kept, before)


def rnd_cloud(rng, k, kd="drop"):
    dim = int(rng.integers(1, 4))
    n = int(rng.integers(2, 9))
    L = int(rng.integers(1, 7))
    pts = rng.integers(-L, L + 1, size=(n, dim))
    pos = int(rng.integers(n))
    c = {"kind": kd, "pts": pts.tolist(), "cpos": pos + 1, "cx": pts[pos].tolist(),
         "r2": int(rng.integers(1, L + 2)) ** 2, "n": int(rng.integers(0, n))}
    if rng.random() < 0.1:  # the current point is not among the points
        c["idx"] = [3 * j + 2 for j in range(n)]
        c["cur"] = 0
    if kd == "cluster":
        c = {"kind": kd, "pts": pts.tolist(), "eps2": int(rng.integers(0, L + 1)) ** 2}
    return c


# ------------------------------------------------------------ radius, n evals
@kind("radius")
def _radius(c):
    from tranquilo.adjust_radius import adjust_radius
    from tranquilo.options import RadiusOptions
    s = 1 / 32
    o = RadiusOptions(
        initial_radius=c["r"] * s, min_radius=c["rmin"] * s, max_radius=c["rmax"] * s,
        rho_decrease=c["dec"] / 4, rho_increase=c["inc"] / 4, shrinking_factor=1 / c["shrink"],
        expansion_factor=float(c["expand"]), large_step=c["large"] / 2,
        max_radius_to_step_ratio=float(c["ratio"]) if c["ratio"] else math.inf)
    r = adjust_radius(radius=c["r"] * s, rho=val(c["rho"]) / 4, step_length=c["step"] * s,
                      options=o, n_evals_is_increased=c["more"])
    r = float(r) / s
    return {"r": int(r) if r == int(r) else -1}


@kind("nevals")
def _nevals(c):
    from tranquilo.adjust_n_evals import adjust_n_evals
    from tranquilo.options import NoiseAdaptationOptions
    o = NoiseAdaptationOptions(
        high_rho=0.6, low_rho=0.1, min_share_high_rho=c["hiNum"] / c["hiDen"],
        min_share_low_rho=c["loNum"] / c["loDen"], min_n_evals=c["nmin"],
        max_n_evals=c["nmax"], good_rho_threshold=float(c["good"]))
    v = [0.7 + k for k in range(c["hi"])]
    v += [0.6 if k % 2 else 0.11 for k in range(c["lo"] - c["hi"])]
    v += [0.1 if k % 2 else -1.0 for k in range(c["draws"] - c["lo"])]
    v = v[::-1]
    n, inc = adjust_n_evals(n_evals=c["nev"], rho=val(c["rho"]), rho_noise=np.array(v), options=o)
    return {"nev": int(n), "inc": int(bool(inc))}


# ----------------------------------------------------------------- infinities
@kind("inf")
def _inf(c):
    from tranquilo.handle_infinity import get_infinity_handler
    raw = c.pop("raw")
    s = float(c.pop("scale", 1.0))
    y = np.array([[val(v) * s for v in r] for r in raw])
    before = y.copy()
    f = get_infinity_handler("relative")
    out = np.asarray(f(y), dtype=float)
    fin = np.isfinite(y)

    def num(v):
        return N(v) if math.isfinite(v) else (BIG if v > 0 or math.isnan(v) else 0)

    lo, up, low, high = [], [], [], []
    for j in range(y.shape[1]):
        col = y[fin[:, j], j]
        rg = (col.max() - col.min()) if len(col) else 0.0
        lo.append(N(col.min() - rg) if len(col) else 1)
        up.append(N(col.max() + rg) if len(col) else 1)
        far = 100 * (rg + 1) + 1e-12 * np.abs(col).max() if len(col) else 0.0
        low.append(N(col.min() - far) if len(col) else 1)
        high.append(N(col.max() + far) if len(col) else 1)
    indep = all(np.array_equal(np.asarray(f(y[:, [j]]))[:, 0], out[:, j])
                for j in range(y.shape[1]))
    c["y"] = [[num(v) for v in r] for r in y]
    c["lo"], c["up"], c["low"], c["high"] = lo, up, low, high
    return {"y": [[num(v) for v in r] for r in out], "indep": int(indep),
            "pure": int(np.array_equal(before, y))}


def rnd_inf(rng, k):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    L = int(rng.choice([1, 5, 1000]))
    y = rng.integers(-L, L + 1, size=(n, m))
    mask = rng.random((n, m))
    p = float(rng.choice([0.1, 0.4, 0.8, 1.0]))
    y = np.where(mask < p / 2, BIG, np.where(mask < p, -BIG, y))
    return {"kind": "inf", "raw": y.tolist(), "scale": float(rng.choice([1.0, 1e-3, 1e6, 1e12, 1e18, 1e60]))}
