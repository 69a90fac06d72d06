"""Diagnostic figures of results: what they show is what the run recorded (C35)."""
import math
from types import SimpleNamespace

import numpy as np

from vh.cases import kind
from vh.numbers import BIG, N, fp

M3, M4 = 1000, 10000


def _ints(a):
    return [int(i) for i in np.atleast_1d(np.asarray(a))] if np.size(a) else []


def _result(sc):
    import tranquilo.tranquilo as tm
    from vh import scen
    crit, x0, lo, up = scen.problem_of(sc)
    res = tm._tranquilo(functype=sc["functype"], criterion=crit, x=x0, lower_bounds=lo,
                        upper_bounds=up, **sc["kwargs"])
    h = res["tranquilo_history"]
    n = h.get_n_xs()
    history = {"params": [h.get_xs(i) for i in range(n)],
               "criterion": [float(np.mean(h.get_fvals(i))) for i in range(n)]}
    kw = dict(params=np.array(res["solution_x"]), criterion=res["solution_criterion"],
              algorithm="tranquilo", history=history, algorithm_output={"states": res["states"]})
    return kw, (lo, up)


def _wrap(kw, form):
    if form == "dict":
        return SimpleNamespace(**kw)
    from estimagic.optimization.optimize_result import OptimizeResult
    return OptimizeResult(start_criterion=0.0, start_params=kw["params"], direction="minimize",
                          n_free=len(kw["params"]), **kw)


def _snapshot(results):
    from vh.rec import Recorder
    mid = Recorder("scalar", {}).mid
    out = []
    for kw in results:
        out.append([np.array(kw["history"]["params"]).tobytes(),
                    np.array(kw["history"]["criterion"]).tobytes(), kw["params"].tobytes()])
        for s in kw["algorithm_output"]["states"]:
            out.append([s.index, s.rho, s.trustregion.radius, s.trustregion.center.tobytes(),
                        [_ints(getattr(s, f)) for f in (
                            "model_indices", "new_indices", "old_indices_used",
                            "old_indices_discarded")], s.x.tobytes(), mid(s.model)])
    return repr(out)


def _unit(x, s, bounds):
    """Unit coordinates of points in the trust region of a state."""
    c, r = np.asarray(s.trustregion.center, float), float(s.trustregion.radius)
    lo, up = bounds
    d = len(c)
    lo = np.full(d, -np.inf) if lo is None else np.asarray(lo, float)
    up = np.full(d, np.inf) if up is None else np.asarray(up, float)
    if (c - lo <= r).any() or (up - c <= r).any():
        w = math.sqrt(math.pi) * r / 2 / math.gamma(d / 2 + 1) ** (1 / d)
        a, b = np.maximum(c - w, lo), np.minimum(c + w, up)
        return 2 * (x - a) / (b - a) - 1
    return (x - c) / r


def _quality(x, s, bounds):
    u = _unit(x, s, bounds)
    n, d = u.shape
    sv = np.linalg.svd(u / math.sqrt(n), compute_uv=False)
    if n < d or sv.min() < 1e-6:
        return BIG  # the quality of a degenerate sample is not resolved
    return fp(d * math.log(n) + 2 * np.log(sv).sum(), M4)


def _clusters(x, s, factor):
    from tranquilo.clustering import cluster
    n, d = x.shape
    radius = float(s.trustregion.radius) * (1 / (factor * n)) ** (1 / d)
    dist = np.linalg.norm(x[:, None, :] - x[None, :, :], axis=2)
    if (np.abs(dist - radius) <= 1e-9 * radius).any():
        return -1
    return len(cluster(x, radius)[1])


def _nums(v):
    v = [] if v is None else list(np.atleast_1d(np.asarray(v, dtype=object)))
    return [math.nan if w is None else float(w) for w in v]


@kind("figure")
def _figure(c):
    from tranquilo.visualize import visualize_tranquilo
    runs = [_result(s) for s in c.pop("runs")]
    if c["seed"] % 3 == 0:  # some iterations, as in results of other algorithms, have no ratio
        gaps = np.random.default_rng(c["seed"])
        for kw, _ in runs:
            st = kw["algorithm_output"]["states"]
            st[1:] = [s._replace(rho=math.nan) if gaps.random() < 0.3 else s for s in st[1:]]
    names = c["names"]
    its = [min(i, len(runs[k % len(runs)][0]["algorithm_output"]["states"]) - 1)
           for k, i in enumerate(c["its"])]
    if c["form"] == "int":
        its = [min(its)] * len(runs)
        arg, iters = {n: _wrap(r[0], "dict") for n, r in zip(names, runs)}, its[0]
        per = list(zip(runs, its))
    elif c["form"] == "dict":
        arg = {n: _wrap(r[0], "dict") for n, r in zip(names, runs)}
        iters = dict(zip(names, its))
        per = list(zip(runs, its))
    else:
        its = sorted(set(its), reverse=bool(c["seed"] % 2))
        arg, iters = _wrap(runs[0][0], "opt"), its if c["form"] == "list" else tuple(its)
        names = [f"iteration {i}" for i in its]
        per = [(runs[0], i) for i in its]
    before = _snapshot([r[0] for r in runs])
    fig = visualize_tranquilo(arg, iters)
    pure = before == _snapshot([r[0] for r in runs])
    ncols = len(per)

    def cell(axis):
        k = int(axis[1:] or 1) - 1
        return k // ncols, k % ncols

    traces = {}
    for t in fig.data:
        row, col = cell(t.xaxis or "x")
        traces.setdefault(col, []).append((row, t))
    c["one"], c["three"], c["nan"] = N(-1.0), N(3.0), N(math.nan)
    cols = []
    for k, ((kw, bounds), it) in enumerate(per):
        states = kw["algorithm_output"]["states"]
        s = states[it]
        xs = np.array(kw["history"]["params"])
        fs = kw["history"]["criterion"]
        mi = _ints(s.model_indices)
        disc = _ints(s.old_indices_discarded)
        d = xs.shape[1]
        u = (xs[mi] - s.trustregion.center) / s.trustregion.radius
        want = {
            "it": it, "d": d, "f": [N(v) for v in fs], "x": [[N(v) for v in np.append(x, [0.0] * (2 - d))] for x in xs],
            "i": int(s.index), "model": mi, "new": _ints(s.new_indices),
            "used": _ints(s.old_indices_used), "disc": disc,
            "radii": [N(float(t.trustregion.radius)) for t in states],
            "rhos": [N(math.nan if t.rho is None else float(t.rho)) for t in states],
            "c": [], "u": [[fp(v, M3) for v in r] for r in u],
            "qual": [BIG] + [_quality(xs[t.model_indices], t, bounds) for t in states[1:]],
            "clusters": [[_clusters(xs[t.model_indices], t, f) for t in states[1:]]
                         for f in (1, 2, 10)],
            "sizes": [len(_ints(t.model_indices)) for t in states[1:]], "corr": [],
        }
        got = {"lines": [], "marks": [], "points": [], "dist": [], "heat": [], "circle": []}
        for row, t in traces.get(k, []):
            x, y = _nums(t.x) if t.type != "heatmap" else [], None
            name = (t.name or "").strip()
            if t.type == "heatmap":
                z = np.array(t.z, dtype=float)
                got["heat"] = [[-BIG if math.isnan(v) else fp(v, M4) for v in r] for r in z]
                continue
            y = _nums(t.y)
            if row in (1, 2):
                lo, up = fig.get_subplot(row + 1, k + 1).xaxis.range
                got["dist"].append({"row": row, "v": [fp(v, M3) for v in x],
                                    "seen": int(all(lo <= v <= up for v in x))})
            elif row == 0 and d <= 2:
                got["points"].append({"name": name, "x": [[N(a), N(b)] for a, b in zip(x, y)]})
            elif t.mode == "lines":
                ex = [fp(v, M4) if row == 7 else N(v) for v in y]
                if row == 6:
                    ex = [BIG if math.isnan(v) else fp(v * n, M3)
                          for v, n in zip(y, [1] + want["sizes"])]
                got["lines"].append({"row": row, "name": name, "x": [int(v) for v in x], "y": ex})
            else:
                ex = [fp(v, M4) if row == 7 else N(v) for v in y]
                if row == 6:
                    ex = [BIG if math.isnan(v) else fp(v * ([1] + want["sizes"])[int(x[0])], M3)
                          for v in y]
                got["marks"].append({"row": row, "name": name, "x": [int(v) for v in x], "y": ex})
        if d <= 2:
            ctr, r = np.append(s.trustregion.center, 0.0)[:2], s.trustregion.radius
            want["c"] = [N(ctr[0] - r), N(ctr[1] - r), N(ctr[0] + r), N(ctr[1] + r)]
            for sh in fig.layout.shapes:
                if sh.type == "circle" and cell(sh.xref) == (0, k):
                    got["circle"].append([N(v, snap=[w.v]) for v, w in zip(
                        (sh.x0, sh.y0, sh.x1, sh.y1), want["c"])])
        else:
            z = np.corrcoef(xs[mi + disc].T)
            want["corr"] = [[BIG if math.isnan(v) else fp(abs(v), M4) for v in r] for r in z]
        cols.append({"want": want, "got": got})
    titles = [a.text for a in fig.layout.annotations]
    return {"cols": cols, "titles": int(titles[:ncols] == list(names)), "pure": int(pure)}


def rnd_figure(rng, k):
    from vh import scen

    def pick(*a):
        return a[int(rng.integers(len(a)))]

    form = pick("int", "dict", "list", "tuple")
    n_runs = 1 if form in ("list", "tuple") else int(rng.integers(1, 4))
    runs = []
    for j in range(n_runs):
        ft = pick("scalar", "least_squares", "least_squares")
        d = pick(1, 2, 2, 3, 4)
        kw = {"seed": int(rng.integers(100)), "stopping_max_iterations": int(rng.integers(2, 9)),
              "sampler": pick("optimal_hull", "random_hull")}
        if rng.random() < 0.5:
            kw["sample_filter"] = pick("keep_all", "discard_all", "drop_excess")
        if rng.random() < 0.4:
            kw["stagnation_options"] = {"min_relative_step_keep": 0.5, "min_relative_step": 0.3,
                                        "drop": bool(rng.integers(2))}
        if rng.random() < 0.3:
            kw["batch_size"] = int(rng.integers(2, 5))
        runs.append(scen.scenario(f"fig{k}_{j}", ft, pick("prod", "rosen", "smooth"), d,
                                  pick("a", "b", "far"), pick(None, None, "both"), **kw))
    names = [f"case {chr(122 - 3 * j)}{k % 7}" for j in range(n_runs)]
    n_its = int(rng.integers(1, 4)) if form in ("list", "tuple") else n_runs
    return {"kind": "figure", "form": form, "runs": runs, "names": names,
            "its": [int(v) for v in rng.integers(0, 9, size=n_its)], "seed": int(k)}
