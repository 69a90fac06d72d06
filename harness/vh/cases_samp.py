"""Sampling, poisedness, sizes of replicate samples and simulated ratios
(C10, C29, C30, C32, C33)."""
import itertools

import numpy as np

from vh.cases import Frame, kind, val
from vh.cases_num import build, fps, region
from vh.numbers import BIG, fp

M3, M4 = 1000, 10_000


def _global_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2]


# ------------------------------------------------------------------ samplers
def _unit(c, x):
    """Unit coordinates, independent of the code under test."""
    import math
    cen, r, d = np.array(c["c"], float), float(c["r"]), len(c["c"])
    lo, up = np.array([val(v) for v in c["lo"]]), np.array([val(v) for v in c["up"]])
    x = np.asarray(x, float).reshape(-1, d)
    if (cen - lo <= r).any() or (up - cen <= r).any():
        w = math.sqrt(math.pi) * r / 2 / math.gamma(d / 2 + 1) ** (1 / d)
        a, b = np.maximum(cen - w, lo), np.minimum(cen + w, up)
        return 2 * (x - a) / (b - a) - 1, True
    return (x - cen) / r, False


def _logdet(u, ex, n):
    s = u if ex is None or not len(ex) else np.vstack([u, ex])
    return float(np.linalg.det(s.T @ s / n))


@kind("sample")
def _sample(c):
    from tranquilo.sample_points import get_sampler
    d = len(c["c"])
    fr = Frame(c, d, (0, 0, 2, 3, 5))
    lo, up = (fr.put([val(v) for v in c[k]]) for k in ("lo", "up"))
    nolo, noup = all(v <= -BIG for v in c["lo"]), all(v >= BIG for v in c["up"])
    reg = region(c["c"], c["r"], None if nolo else c["lo"], None if noup else c["up"], fr)
    opts = {}
    if c["sampler"] != "random_interior":
        if c["distr"] != "none":
            opts["distribution"] = c["distr"]
    if c["sampler"] == "optimal_hull":
        opts["n_points_randomsearch"] = c["nrs"]
        opts["return_info"] = True
        if c["crit"] != "none":
            opts["criterion"] = c["crit"]
        if c["hard"] != 1:
            opts["hardness"] = float(c["hard"])
        if c["maxiter"]:
            opts["algo_options"] = {"maxiter": c["maxiter"]}
    sampler = get_sampler(c["sampler"], opts)
    exist = None
    if c["nex"]:
        g = np.random.default_rng(c["seed"] + 1)
        v = g.uniform(-1, 1, size=(c["nex"], d))
        if c["exhull"]:
            v /= np.abs(v).max(axis=1, keepdims=True)
        if reg.shape == "sphere":
            v /= np.maximum(1, np.linalg.norm(v, axis=1, keepdims=True))
        v *= 0.999
        v = np.where(np.linalg.norm(v, axis=1, keepdims=True) < 0.15, 0.0, v)
        exist = reg.map_from_unit(v)
        exist = np.vstack([reg.center, exist])

    def run(gstate):
        np.random.seed(gstate)
        g0 = _global_state()
        before = (reg.center.copy(), None if exist is None else exist.copy(),
                  {k: dict(v) if isinstance(v, dict) else v for k, v in opts.items()})
        out = sampler(trustregion=reg, n_points=c["n"], existing_xs=exist,
                      rng=np.random.default_rng(c["seed"]))
        info = None
        if isinstance(out, tuple):
            out, info = out
        pure = (np.array_equal(before[0], reg.center) and before[2] == opts
                and (exist is None or np.array_equal(before[1], exist)))
        return np.asarray(out, float), info, pure, g0 == _global_state()

    x, info, pure, glob = run(1)
    x2, _, pure2, glob2 = run(2)
    n = len(x)
    x = x.reshape(n, d) if n else x.reshape(0, d)
    u, box = _unit(c, fr.back(x))
    norm = np.abs(u).max(axis=1) if box else np.linalg.norm(u, axis=1)
    out = {"n": n, "finite": int(np.isfinite(x).all()), "u": fps(u, M4) if n else [],
           "dev": [fp(v - 1, 1e9) for v in norm],
           "inb": int((x >= lo).all() and (x <= up).all()),
           "same": int(np.array_equal(x.reshape(x2.shape), x2)),
           "pure": int(pure and pure2), "glob": int(glob and glob2), "worse": 0}
    dist = [np.abs(u[i] - u[j]).max() for i in range(n) for j in range(i)] if n <= 60 else [1]
    out["distinct"] = int(min(dist, default=1) > 1e-7)
    if info is not None:
        ex = None
        if exist is not None:
            ex, _ = _unit(c, fr.back(exist))
            crit = c["crit"]
            if crit == "none":
                crit = "determinant" if c["n"] == 1 else "distance"
            if crit == "distance":
                ex = ex[np.linalg.norm(ex, axis=1) >= 0.1]
        start = np.asarray(info["start_params"], float).reshape(-1, d)
        sn = np.abs(start).max(axis=1) if box else np.linalg.norm(start, axis=1)
        start = start / sn[:, None]
        a, b = _logdet(start, ex, c["n"]), _logdet(u, ex, c["n"])
        out["worse"] = int(b < a - 1e-9 * max(abs(a), 1e-3))
    return out


def rnd_sample(rng, k):
    d = int(rng.integers(1, 5))
    c = rng.integers(-5, 6, size=d)
    r = int(rng.integers(1, 7))
    lo, up = [-BIG] * d, [BIG] * d
    if rng.random() < 0.7:
        p = rng.random()
        lo = [int(v - rng.integers(0, 9)) if rng.random() < p else -BIG for v in c]
        up = [int(v + rng.integers(0, 9)) if rng.random() < p else BIG for v in c]
        up = [int(u + 1) if u == v else u for u, v in zip(up, lo)]
    s = str(rng.choice(["random_interior", "random_hull", "optimal_hull", "optimal_hull"]))
    n = int(rng.integers(0, 9))
    if s != "optimal_hull" and rng.random() < 0.25:
        n = 300
        if d == 4:
            d, c, lo, up = 3, c[:3], lo[:3], up[:3]
    return {"kind": "sample", "c": [int(v) for v in c], "r": r, "lo": lo, "up": up, "sampler": s,
            "n": n, "nex": int(rng.integers(0, 5)), "exhull": int(rng.random() < 0.5),
            "distr": str(rng.choice(["none", "normal", "uniform"])),
            "crit": str(rng.choice(["none", "none", "distance", "determinant"])),
            "nrs": int(rng.choice([1, 1, 4])), "hard": int(rng.choice([1, 1, 3])),
            "maxiter": int(rng.choice([0, 0, 3])), "seed": int(rng.integers(1, 10**6))}


# -------------------------------------------------------- exploration sample
@kind("explore")
def _explore(c):
    from tranquilo.exploration_sample import draw_exploration_sample
    lo = np.array(c["lower"], float)
    w = np.array(c["width"], float)
    up = lo + w
    x = lo + w * np.array(c["x"]) / np.array(c["w"])
    kw = {"sampling_distribution": c["dist"], "sampling_method": c["method"]}
    if c["bad"] == "lower":
        lo[-1] = -np.inf
    elif c["bad"] == "upper":
        up[0] = np.inf
    elif c["bad"] == "nan":
        up[0] = np.nan
    elif c["bad"] == "method":
        kw["sampling_method"] = "grid"
    elif c["bad"] == "distribution":
        kw["sampling_distribution"] = "normal"
    before = lo.copy(), up.copy(), x.copy()

    def draw(n, seed):
        return np.asarray(draw_exploration_sample(
            x=x, lower=lo, upper=up, n_samples=n, seed=seed, **kw), float)

    np.random.seed(3)
    g = _global_state()
    s = draw(c["n"], c["seed"])
    glob = g == _global_state()
    np.random.seed(4)
    s2 = draw(c["n"], c["seed"])
    o = draw(c["n"], c["seed"] + 1)
    more = draw(c["n"] + 5, c["seed"])
    return {"n": len(s), "inb": int((s >= lo).all() and (s <= up).all()),
            "same": int(np.array_equal(s, s2)), "other": int(not np.array_equal(s, o)),
            "prefix": int(np.array_equal(more[:c["n"]], s)),
            "pure": int(glob and np.array_equal(before[0], lo) and np.array_equal(before[1], up)
                        and np.array_equal(before[2], x)),
            "x": fps((s - lo) / w, M4) if len(s) else []}


def rnd_explore(rng, k):
    d = int(rng.integers(1, 4))
    m = str(rng.choice(["sobol", "halton", "latin_hypercube", "random"]))
    full = 0
    if m == "sobol":
        n = int(rng.choice([1, 3, 7, 15, 31, 63, 10, 120]))
        full = int((n + 1) & n == 0)
    elif m == "halton":
        full = int(rng.integers(0, d + 1))
        n = int(rng.choice([[5, 120], [2, 16, 64], [3, 9, 27], [5, 25, 25]][full]
                           if full != 1 else [2, 16, 64]))
    elif m == "random":
        n = int(rng.choice([1, 7, 150]))
    else:
        n = int(rng.integers(1, 40))
    w = rng.choice([2, 3, 4], size=d)
    bad = "none" if rng.random() < 0.9 else str(rng.choice(
        ["lower", "upper", "nan", "method", "distribution"]))
    return {"kind": "explore", "lower": rng.integers(-20, 20, size=d).tolist(),
            "width": rng.integers(1, 40, size=d).tolist(), "w": w.tolist(),
            "x": [int(rng.integers(0, v + 1)) for v in w], "n": n, "full": full,
            "dist": str(rng.choice(["uniform", "triangular"])), "method": m, "bad": bad,
            "seed": int(rng.integers(1, 10**6))}


# ---------------------------------------------------------------- poisedness
def _poly_features(x):
    n, d = x.shape
    cols = [np.ones(n)] + [x[:, i] for i in range(d)]
    for i in range(d):
        cols.append(0.5 * x[:, i] ** 2)
        cols += [x[:, i] * x[:, j] for j in range(i + 1, d)]
    return np.column_stack(cols)


def _split(p, d):
    H = np.zeros((d, d))
    k = d + 1
    for i in range(d):
        for j in range(i, d):
            H[i, j] = H[j, i] = p[k]
            k += 1
    return p[0], p[1:d + 1], H


def _stationary(p, d, shape):
    """Candidates for the largest absolute value of a quadratic."""
    a, g, H = _split(p, d)
    pts = [np.zeros(d)]
    if shape == "cube":
        for face in itertools.product((-1, 0, 1), repeat=d):
            x = np.array(face, float)
            fr = x == 0
            if fr.any():
                sol = np.linalg.lstsq(H[np.ix_(fr, fr)], -(g[fr] + H[np.ix_(fr, ~fr)] @ x[~fr]),
                                      rcond=None)[0]
                x[fr] = np.clip(sol, -1, 1)
            pts.append(x)
    else:
        w, V = np.linalg.eigh(H)
        b = V.T @ g
        for lam in np.concatenate([np.linspace(-3, 3, 61) * max(1, np.abs(w).max()), w + 1e-6,
                                   w - 1e-6]):
            with np.errstate(all="ignore"):
                y = -b / (w - lam)
            if np.isfinite(y).all() and np.linalg.norm(y) > 0:
                pts.append(V @ y / np.linalg.norm(y))
        if np.abs(w).min() > 1e-9:
            y = V @ (-b / w)
            if np.linalg.norm(y) <= 1:
                pts.append(y)
        pts += [v for v in V.T] + [-v for v in V.T]
    vals = [abs(a + g @ x + 0.5 * x @ H @ x) for x in pts]
    k = int(np.argmax(vals))
    return vals[k], pts[k]


_TINY = np.vstack([np.zeros(28), np.where(np.arange(28) == 0, 1e-7, 0),
                   np.where(np.arange(28) == 0, -1e-7, 0),
                   np.random.default_rng(0).normal(size=(2, 28)) * 1e-8])


def _local(P, d, shape):
    """Largest value that a search from the centre finds.

    Where a polynomial is zero in the centre, its absolute value has a kink there and
    rounding decides the direction of the search; such a polynomial counts with the
    smallest value that searches find after tiny changes of its coefficients.

    """
    from scipy.optimize import Bounds, NonlinearConstraint, minimize
    if shape == "sphere":
        kw = {"constraints": [NonlinearConstraint(lambda x: np.linalg.norm(x), 0, 1)]}
    else:
        kw = {"bounds": Bounds(-np.ones(d), np.ones(d))}
    best = 0.0
    for p in P:
        found = []
        for noise in _TINY:
            a, g, H = _split(p + noise[:len(p)], d)
            x = minimize(lambda x: -abs(a + g @ x + 0.5 * x @ H @ x), np.zeros(d),
                         method="trust-constr", **kw).x
            found.append(abs(a + g @ x + 0.5 * x @ H @ x))
        best = max(best, min(found))
    return best


@kind("poised")
def _poised(c):
    from tranquilo.poisedness import get_poisedness_constant, improve_poisedness
    # lists of whole numbers make samples of whole numbers
    S = np.array(c["y"]) if c["L"] == 1 else np.array(c["y"], float) / c["L"]
    n, d = S.shape
    before = S.copy()
    lam, am, idx = get_poisedness_constant(S, c["shape"])
    if c["shape"] not in ("cube", "sphere"):
        return {"n": 0}
    P = np.linalg.solve(_poly_features(S), np.eye(n)).T
    cand = [_stationary(p, d, c["shape"]) for p in P]
    wi = int(np.argmax([v for v, _ in cand]))
    imp1, l1 = improve_poisedness(S, shape=c["shape"], maxiter=1)
    exp1 = S.astype(float)
    exp1[idx] = am
    replaced = imp1.shape == S.shape and np.allclose(imp1, exp1, rtol=0, atol=1e-9)
    hist = len(l1) == 1 and abs(l1[0] - lam) <= 1e-6 * lam
    if c["two"] and np.linalg.cond(_poly_features(exp1)) < 1e4:
        lam2, am2, idx2 = get_poisedness_constant(exp1, c["shape"])
        imp2, l2 = improve_poisedness(S, shape=c["shape"], maxiter=2)
        exp1[idx2] = am2
        replaced &= np.allclose(imp2, exp1, rtol=0, atol=1e-9)
        hist &= len(l2) == 2 and abs(l2[1] - lam2) <= 1e-6 * lam2 and abs(l2[0] - lam) <= 1e-6 * lam
    imp0, l0 = improve_poisedness(S, shape=c["shape"], maxiter=0)
    hist &= len(l0) == 0 and np.array_equal(imp0, S)
    # the search is repeated only where there are larger values than the one found
    loc = 0.99 * _local(P, d, c["shape"]) if cand[wi][0] > lam + 0.001 else 0.0
    return {"lam": fp(lam, M3), "am": fps(am, M3), "idx": int(idx) + 1, "p": fps(P, M3),
            "w": fps(cand[wi][1], M3), "wi": wi + 1,
            "loc": fp(loc, M3), "replaced": int(replaced),
            "hist": int(hist), "pure": int(np.array_equal(before, S))}


def rnd_poised(rng, k):
    whole = rng.random() < 0.15
    L = 1 if whole else 4
    shape = str(rng.choice(["sphere", "cube"])) if rng.random() < 0.97 else "simplex"
    while True:
        d = int(rng.choice([1, 2, 2, 3]))
        if whole and shape == "sphere":
            d = 1
        grid = np.array(list(itertools.product(range(-L, L + 1), repeat=d)))
        if shape == "sphere":
            grid = grid[(grid**2).sum(axis=1) <= L * L]
        n = (d + 1) * (d + 2) // 2
        best = None
        for _ in range(20):
            y = grid[rng.choice(len(grid), n, replace=False)]
            cond = np.linalg.cond(_poly_features(y / L))
            if best is None or cond < best[0]:
                best = cond, y
            if cond < 30 * d:
                break
        if best[0] < 150:
            break
    return {"kind": "poised", "y": best[1].tolist(), "L": L, "shape": shape,
            "two": int(rng.random() < 0.4)}


# -------------------------------------------------------- sizes of replicates
LEVELS = [0.5, 0.7, 0.8, 0.85, 0.9, 0.95, 0.99]


@kind("sizes")
def _sizes(c):
    from tranquilo.acceptance_sample_size import get_acceptance_sample_sizes

    def f(s, e, p, q):
        n1, n2 = get_acceptance_sample_sizes(
            sigma=s, existing_n1=c["ex"], expected_improvement=e, power_level=LEVELS[p],
            confidence_level=LEVELS[q], n_min=c["nmin"], n_max=c["nmax"])
        assert n1 == int(n1) and n2 == int(n2)
        return int(n1), int(n2)

    s, e, p, q = float(c["s"]), float(c["e"]), c["p"], c["q"]
    n1, n2 = f(s, e, p, q)
    s1, s2 = f(s + 1, e, p, q)
    e1, e2 = f(s, e + 1, p, q)
    p1, p2 = f(s, e, p + 1, q)
    q1, q2 = f(s, e, p, q + 1)
    return {"n1": n1, "n2": n2, "s1": s1, "s2": s2, "e1": e1, "e2": e2, "p1": p1, "p2": p2,
            "q1": q1, "q2": q2}


def rnd_sizes(rng, k):
    from scipy.stats import norm
    p, q = (int(v) for v in rng.integers(0, len(LEVELS) - 1, size=2))
    if p == q == 0:
        q = 3
    nmin = int(rng.integers(1, 5))
    return {"kind": "sizes", "s": int(rng.integers(0, 6)), "e": int(rng.integers(-1, 8)),
            "ex": int(rng.choice([1, 2, 3, 5, 10, 20, 40])), "p": p, "q": q, "nmin": nmin,
            "nmax": nmin + int(rng.choice([0, 2, 5, 20, 60])),
            "zz": int(round((norm.ppf(LEVELS[p]) + norm.ppf(LEVELS[q])) ** 2 * M3))}


# ------------------------------------------------------------ simulated ratios
@kind("rhonoise")
def _rhonoise(c):
    from tranquilo.aggregate_models import get_aggregator
    from tranquilo.models import VectorModel
    from tranquilo.options import NoiseAdaptationOptions
    from tranquilo.rho_noise import simulate_rho_noise
    from tranquilo.solve_subproblem import SubproblemResult

    d = len(c["cu"])
    cen = np.zeros(d)
    if c["box"]:
        lo = [0 if v == -1 else -2 if v == 0 else -4 for v in c["cu"]]
        reg = region(cen, 100.0, lo, [a + 4 for a in lo])
    else:
        reg = region(cen, 2.0)
    shift, scale = reg.effective_center, reg.effective_radius
    scale = scale.tolist() if isinstance(scale, np.ndarray) else scale
    truth = build(c["m"], shift, scale)
    R = len(c["m"])
    agg = get_aggregator("least_squares_linear" if c["agg"] == "squares" else "sum")
    g = np.random.default_rng(c["seed"])
    u = g.choice([-1.0, -0.5, 0.0, 0.5, 1.0], size=(c["points"], d))
    if not c["box"]:
        u /= np.maximum(1, np.linalg.norm(u, axis=1, keepdims=True))
    xs = reg.map_from_unit(u)
    old = build(c["m"][::-1], shift, scale) if c["old"] else None
    cov = np.array(c["cov"], float)

    def tagged(k):
        lin = np.zeros((R, d))
        lin[0, 0] = k + 1
        a = np.zeros(R)
        a[0] = 1
        return VectorModel(intercepts=a, linear_terms=lin,
                           square_terms=None if c["agg"] == "squares" else np.zeros((R, d, d)),
                           shift=shift, scale=reg.effective_radius)

    tags = {}
    for k in range(c["draws"] + 3):
        tags[float(agg(vector_model=tagged(k)).linear_terms[0])] = k
    true_y = np.asarray(truth.predict(reg.map_to_unit(xs)), float)
    opt = NoiseAdaptationOptions(rho_noise_n_draws=c["draws"],
                                 ignore_corelation=bool(c["ignore"]))

    def run(seed, gseed):
        calls = []

        def fitter(x, y, weights=None, region=None, old_model=None, **kw):
            ok = (np.array_equal(x, xs) and weights is None and region is reg
                  and old_model is old and np.shape(y) == (c["points"], R) and not kw)
            calls.append((np.array(y, float), bool(ok)))
            return tagged(len(calls) - 1)

        def solver(model, trustregion, *a, **kw):
            k = tags[float(model.linear_terms[0])]
            v = np.array(c["sol"][k], float)
            return SubproblemResult(
                x=reg.map_from_unit(v), expected_improvement=float(c["ei"][k]), n_iterations=1,
                success=trustregion is reg, x_unit=v, shape=reg.shape)

        np.random.seed(gseed)
        g0 = _global_state()
        rho = simulate_rho_noise(
            xs=xs, vector_model=truth, old_vector_model=old, trustregion=reg, noise_cov=cov,
            model_fitter=fitter, model_aggregator=agg, subsolver=solver,
            rng=np.random.default_rng(seed), options=opt)
        return np.asarray(rho, float), calls, g0 == _global_state()

    before = xs.copy(), cov.copy(), truth.linear_terms.copy(), truth.intercepts.copy()
    rho, calls, gl = run(c["seed"], 1)
    rho2, calls2, gl2 = run(c["seed"], 2)
    pure = (np.array_equal(before[0], xs) and np.array_equal(before[1], cov)
            and np.array_equal(before[2], truth.linear_terms)
            and np.array_equal(before[3], truth.intercepts))
    noise = np.array([y - true_y for y, _ in calls]) if calls and all(
        y.shape == true_y.shape for y, _ in calls) else np.full((1, c["points"], R), np.nan)
    flat = noise.reshape(-1, R)
    emp = flat.T @ flat / len(flat)
    var = np.diag(cov) > 0
    fresh = True
    for r in np.flatnonzero(var):
        fresh &= len(set(np.round(flat[:, r], 9).tolist())) > 0.9 * len(flat)
    return {"rho": [fp(v, M3) for v in rho], "fits": len(calls),
            "args": int(all(ok for _, ok in calls)), "cov": fps(emp, M3),
            "mean": fps(flat.mean(axis=0), M3),
            "exact": int(np.abs(noise).max(initial=0) <= 1e-9), "fresh": int(bool(fresh)),
            "same": int(len(calls) == len(calls2) and np.array_equal(rho, rho2)
                        and all(np.array_equal(a[0], b[0]) for a, b in zip(calls, calls2))),
            "glob": int(gl and gl2), "pure": int(pure)}


def rnd_rho(rng, k):
    d, R = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    box = int(rng.random() < 0.5)
    agg = str(rng.choice(["sum", "squares"]))
    cu = rng.integers(-1, 2, size=d).tolist() if box else [0] * d

    def model():
        H = rng.integers(-2, 3, size=(d, d))
        return {"a": int(rng.integers(-3, 4)), "g": rng.integers(-3, 4, size=d).tolist(),
                "H": (H + H.T).tolist() if agg == "sum" else []}

    mode = str(rng.choice(["zero", "diag", "full", "partial"]))
    A = rng.integers(-1, 3, size=(R, R))
    cov = {"zero": np.zeros((R, R), int), "diag": np.diag(rng.integers(1, 5, size=R)),
           "full": A @ A.T + np.eye(R, dtype=int),
           "partial": np.diag(np.where(np.arange(R) == 0, 0, 2))}[mode]
    big = rng.random() < 0.3
    draws = int(rng.choice([1, 2, 5])) if not big else 100
    points = int(rng.integers(2, 6)) if not big else 8

    def sol():
        if box:
            return rng.integers(-1, 2, size=d).tolist()
        v = np.zeros(d, int)
        v[rng.integers(d)] = rng.integers(-1, 2)
        return v.tolist()

    return {"kind": "rhonoise", "cu": cu, "box": box, "agg": agg, "m": [model() for _ in range(R)],
            "cov": cov.tolist(), "draws": draws, "points": points, "old": int(rng.random() < 0.5),
            "ignore": int(rng.random() < 0.5), "sol": [sol() for _ in range(draws)],
            "ei": [int(v) for v in rng.integers(0, 4, size=draws)],
            "seed": int(rng.integers(1, 10**6))}
