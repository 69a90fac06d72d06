"""The subproblem step and its solvers (C12, C13)."""
import numpy as np

from vh.cases import kind
from vh.numbers import fp
from vh.stale import is_stale

M3 = 1000
SPHERE = ["gqtpar", "gqtpar_fast", "fallback_reparametrized", "fallback_inscribed_cube",
          "fallback_norm_constraint"]
CUBE = ["bntr", "bntr_fast", "fallback_cube", "fallback_multistart"]
# widths below and above the centre -> position of the centre in the box, in quarters
SIDES = {0: (1, 1), 2: (3, 1), -2: (1, 3), 1: (5, 3), -1: (3, 5), 4: (4, 0), -4: (0, 2),
         3: (7, 1), -3: (1, 7)}


def _f3(v):
    return [fp(x, M3) for x in np.atleast_1d(v)]


def _scalar(m, reg, f=1.0):
    from tranquilo.models import ScalarModel
    return ScalarModel(intercept=f * float(m["a"]), linear_terms=f * np.array(m["g"], float),
                       square_terms=f * np.array(m["H"], float), shift=reg.effective_center,
                       scale=reg.effective_radius)


def _region(c):
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region
    cen = np.array(c["cen"], float)
    if c["box"]:
        side = np.array([SIDES[k] for k in c["k0"]], float) * c["unit"]
        b = Bounds(cen - side[:, 0], cen + side[:, 1])
        return Region(center=cen, radius=200.0 * c["unit"], bounds=b)
    return Region(center=cen, radius=float(c["unit"]), bounds=None)


def _model_bytes(m):
    return (float(m.intercept), m.linear_terms.tobytes(), m.square_terms.tobytes())


def _result(res, reg, m):
    u = np.asarray(res.x_unit, float)
    x = np.asarray(res.x, float)
    finite = bool(np.isfinite(u).all() and np.isfinite(x).all()
                  and np.isfinite(res.expected_improvement))
    if not finite:
        return {"finite": 0}
    inb = True
    if reg.bounds is not None and reg.bounds.has_any:
        inb = bool((x >= reg.bounds.lower).all() and (x <= reg.bounds.upper).all())
    if reg.shape == "sphere":
        inb &= bool(np.linalg.norm(x - reg.center) <= reg.radius * (1 + 1e-9))
    xu = np.asarray(reg.map_from_unit(u))
    same = np.allclose(x, xu, rtol=1e-12, atol=1e-12 * (1 + np.abs(xu).max()))
    return {"finite": 1, "u": _f3(u), "inb": int(inb), "x": [1],
            "xu": [int(same)], "ei": fp(res.expected_improvement, M3)}


@kind("step")
def _step(c):
    from tranquilo.solve_subproblem import get_subsolver
    reg = _region(c)
    m = _scalar(c["m"], reg)
    seen = []
    s = None if not c["s"] else np.array(c["s"], float) / 4

    class Oops(Exception):
        pass

    def solver(which):
        def f(model, x_candidate, lower_bounds, upper_bounds):
            seen.append((which, np.array(x_candidate), np.array(lower_bounds),
                         np.array(upper_bounds)))
            if s is None:
                raise Oops("no solution")
            x = np.full(len(s), np.nan) if c["nan"] else s.copy()
            return {"x": x, "n_iterations": 3, "success": True}
        return f

    before = _model_bytes(m)
    f = get_subsolver(sphere_solver=solver("sphere"), cube_solver=solver("cube"),
                      retry_with_fallback=bool(c["retry"]))
    try:
        res = f(model=m, trustregion=reg)
    except Exception as e:  # noqa: BLE001
        out = {"err": str(e), "same": int(isinstance(e, Oops))}
    else:
        out = _result(res, reg, m)
        if s is None:
            g = get_subsolver(sphere_solver="fallback_inscribed_cube", cube_solver="fallback_cube",
                              retry_with_fallback=False)
            ref = g(model=m, trustregion=reg)
            out["fallback"] = int(np.allclose(res.x, ref.x))
    start = reg.map_to_unit(reg.center)
    out["used"] = seen[0][0] if seen else "none"
    out["start"] = int(len(seen) == 1 and np.allclose(seen[0][1], start)
                       and (seen[0][2] == -1).all() and (seen[0][3] == 1).all())
    out["pure"] = int(before == _model_bytes(m) and np.array_equal(reg.center, c["cen"]))
    return out


def rnd_sym(rng, d, L=3, mode=None):
    mode = mode or str(rng.choice(["any", "psd", "zero", "low", "neg"]))
    if mode == "zero":
        return np.zeros((d, d), int).tolist()
    if mode in ("psd", "low", "neg"):
        b = rng.integers(-1, 2, size=(1 if mode == "low" else d, d))
        h = b.T @ b
        return (-h if mode == "neg" else h).tolist()
    h = rng.integers(-L, L + 1, size=(d, d))
    return (np.triu(h) + np.triu(h, 1).T).tolist()


def rnd_step(rng, k):
    d = int(rng.integers(1, 4))
    box = int(rng.random() < 0.5)
    c = {"kind": "step", "box": box, "unit": float(rng.choice([1.0, 0.25, 8.0])),
         "cen": rng.integers(-3, 4, size=d).tolist(),
         "k0": rng.choice(list(SIDES), size=d).tolist() if box else [0] * d,
         "m": {"a": int(rng.integers(-3, 4)), "g": rng.integers(-3, 4, size=d).tolist(),
               "H": rnd_sym(rng, d)},
         "s": rng.integers(-6, 7, size=d).tolist(), "retry": int(rng.random() < 0.5),
         "nan": int(rng.random() < 0.05)}
    if rng.random() < 0.2:
        c["s"] = []
        c["nan"] = 0
    return c


@kind("builtin")
def _builtin(c):
    """Built-in solvers on badly scaled, singular or indefinite models."""
    from tranquilo.models import ScalarModel
    from tranquilo.solve_subproblem import get_subsolver
    rng = np.random.default_rng(c["seed"])
    d = c["d"]
    reg = _region(c)
    sc = 10.0 ** c["mag"]
    g = rng.normal(size=d) * sc
    h, v = rng.normal(size=(d, d)), rng.normal(size=d)
    h = {"any": h + h.T, "psd": h @ h.T, "neg": -h @ h.T, "zero": np.zeros((d, d)),
         "low": np.outer(h[0], h[0]), "diag": np.diag(h[0]), "sing": np.diag(h[0] * (v > 0)),
         "big": 1e8 * (h + h.T), "tiny": 1e-12 * (h + h.T)}[c["mode"]] * sc
    if c["gmode"] == "zero":
        g = np.zeros(d)
    elif c["gmode"] == "coord":
        g = np.where(np.arange(d) == 0, g, 0.0)
    m = ScalarModel(intercept=float(rng.normal() * sc), linear_terms=g, square_terms=h,
                    shift=reg.effective_center, scale=reg.effective_radius)
    before = _model_bytes(m)
    f = get_subsolver(sphere_solver=c["sphere"], cube_solver=c["cube"], retry_with_fallback=True)
    res = f(model=m, trustregion=reg)
    out = _result(res, reg, m)
    if out["finite"]:
        u0 = reg.map_to_unit(reg.center)
        ei = float(m.predict(u0) - m.predict(np.asarray(res.x_unit)))
        mag = abs(m.predict(u0)) + abs(m.predict(np.asarray(res.x_unit))) + 1e-300
        out["ei"] = 0
        out["eineg"] = int(res.expected_improvement < 0)
        out["eiok"] = int(abs(ei - res.expected_improvement) <= 1e-9 * mag)
    out["pure"] = int(before == _model_bytes(m))
    return out


def rnd_builtin(rng, k):
    d = int(rng.integers(1, 6))
    box = int(rng.random() < 0.5)
    return {"kind": "builtin", "d": d, "box": box, "unit": float(rng.choice([1.0, 1e-5, 1e3])),
            "cen": rng.integers(-3, 4, size=d).tolist(), "seed": int(rng.integers(10**6)),
            "k0": rng.choice(list(SIDES), size=d).tolist() if box else [0] * d,
            "mag": int(rng.choice([-12, -6, 0, 0, 6, 12])),
            "mode": str(rng.choice(["any", "psd", "neg", "zero", "low", "diag", "sing", "big",
                                    "tiny"])),
            "gmode": str(rng.choice(["any", "any", "zero", "coord"])),
            "sphere": SPHERE[k % len(SPHERE)], "cube": CUBE[k % len(CUBE)]}


# ------------------------------------------------------------------ solvers
def _solvers():
    from tranquilo.subsolvers import bntr as b, bntr_fast as bf, gqtpar as g, gqtpar_fast as gf
    return {"bntr": b.bntr, "bntr_fast": bf.bntr_fast, "gqtpar": g.gqtpar,
            "gqtpar_fast": gf.gqtpar_fast}


def _call(name, m, u0, c):
    from tranquilo.get_component import get_component
    from tranquilo.options import SubsolverOptions
    opts = {"k_easy": c["k"], "k_hard": 2 * c["k"], "maxiter": c["maxiter"]}
    if c["box"]:
        opts = {"maxiter": c["maxiter"], "conjugate_gradient_method": c["cg"]}
    f = get_component(name_or_func=_solvers()[name], component_name="solver",
                      default_options=SubsolverOptions(), user_options=opts)
    return f(model=m, x_candidate=u0.copy(), lower_bounds=-np.ones(len(u0)),
             upper_bounds=np.ones(len(u0)))


@kind("solver")
def _solver(c):
    from tranquilo.region import Region
    d = len(c["m"]["g"])
    reg = Region(center=np.zeros(d), radius=1.0)
    f = 2.0 ** c["sc"]  # the solution does not depend on the unit of the criterion
    m = _scalar(c["m"], reg, f)
    u0 = np.array(c["k0"], float) / 4
    before = _model_bytes(m)
    name = "bntr" if c["box"] else "gqtpar"
    res = {n: _call(n, m, u0, c) for n in (name, name + "_fast")}
    x = {n: np.asarray(r["x"], float) for n, r in res.items()}
    a, b = x[name], x[name + "_fast"]
    agree = np.allclose(a, b, atol=1e-6) or abs(m.predict(a) - m.predict(b)) < 1e-6 * f
    worst = max((a, b), key=lambda v: float(m.predict(v)) if np.isfinite(v).all() else np.inf)
    stale = 0
    if not c["box"]:
        stale = is_stale(worst, m.linear_terms, m.square_terms, c["k"], 2 * c["k"], c["maxiter"])
    return {"stale": stale, "u": _f3(worst), "u4": [fp(v, 10**4) for v in worst], "gain": fp((m.predict(u0) - m.predict(worst)) / f, M3),
            "agree": int(bool(agree)), "pure": int(before == _model_bytes(m))}


def _witness(m):
    """A point of the unit ball where the model is close to its minimum, in thousandths."""
    g, h = np.array(m["g"], float), np.array(m["H"], float)
    ew, v = np.linalg.eigh(h)
    b = v.T @ g

    def at(lam):
        return -v @ np.where(np.abs(b) > 0, b / np.where(ew + lam == 0, 1e-12, ew + lam), 0)

    if ew[0] > 0 and np.linalg.norm(at(0.0)) <= 1:
        return np.trunc(1000 * at(0.0)).astype(int).tolist()
    lo = max(0.0, -ew[0]) + 1e-9
    hi = lo + np.linalg.norm(g) + 1
    if np.linalg.norm(at(lo)) <= 1:  # hard case: a multiple of an eigenvector is missing
        x = at(lo)
        if ew[0] < 0:
            x = x + v[:, 0] * np.sqrt(max(0.0, 1 - x @ x))
        return np.trunc(1000 * x).astype(int).tolist()
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if np.linalg.norm(at(mid)) > 1 else (lo, mid)
    return np.trunc(1000 * at(hi)).astype(int).tolist()


RECORDED = {"kind": "solver", "box": 0, "sc": 0, "L": 4, "cg": "cg", "opt": 1, "k0": [0, 0, 0],
            "m": {"a": 0, "g": [-3, 3, -1], "H": [[2, 0, 0], [0, 2, 0], [0, 0, 1]]}, "k": 1e-3,
            "maxiter": 200, "num": 98, "den": 100, "slack": 4, "lossy": 3, "w": [676, -676, 291]}


def rnd_solver(rng, k):
    if k == 0:
        return RECORDED
    box = k % 2
    d = int(rng.choice([1, 2, 2, 3, 4, 6])) if k % 5 == 0 else int(rng.choice([1, 2, 2, 3]))
    mode = str(rng.choice(["psd", "psd", "low", "zero"])) if box else None
    cg = str(rng.choice(["cg", "steihaug_toint", "trsbox"]))
    opt = 1
    if box and rng.random() < 0.2:
        mode, opt = None, 0  # not convex: only the start has to be beaten
    if box and d > 1 and rng.random() < 0.3:
        mode = "psd"
    h = rnd_sym(rng, d, 3, mode)
    if box and opt and mode == "psd" and rng.random() < 0.6:
        h = (np.array(h) + np.diag(rng.integers(1, 3, size=d))).tolist()
    # there is an absolute tolerance of the gradient norm in bntr
    sc = int(rng.choice([0, 0, -4, 8, 24, 36] if box else [0, 0, -24, -10, 10, 24]))
    c = {"kind": "solver", "box": box, "sc": sc, "L": {1: 16, 2: 4 if box else 8, 3: 4}.get(d, 1),
         "cg": cg, "opt": opt,
         "k0": rng.integers(-4, 5, size=d).tolist() if box else [0] * d,
         "m": {"a": int(rng.integers(-3, 4)), "g": rng.integers(-3, 4, size=d).tolist(), "H": h},
         "k": 1e-3, "maxiter": 200, "num": 98, "den": 100, "slack": 4, "lossy": 3}
    if d > 3:  # the lattice is coarse: the start has to be one of its points
        c["k0"] = [4 * (v // 4) for v in c["k0"]]
    c["w"] = [] if box else _witness(c["m"])
    return c


# ------------------------------------------- inner methods and linear subproblems
def _inner_calls(c):
    from tranquilo.subsolvers._conjugate_gradient import minimize_trust_cg
    from tranquilo.subsolvers._conjugate_gradient_fast import minimize_trust_cg_fast
    from tranquilo.subsolvers._steihaug_toint import minimize_trust_stcg
    from tranquilo.subsolvers._steihaug_toint_fast import minimize_trust_stcg_fast
    from tranquilo.subsolvers._trsbox import minimize_trust_trsbox
    from tranquilo.subsolvers._trsbox_fast import minimize_trust_trsbox_fast
    g, h = np.array(c["g"], float), np.array(c["H"], float)
    r, lo, up = c["r"] / 4, np.array(c["lo"], float) / 4, np.array(c["up"], float) / 4
    before = repr((g, h, lo, up))
    if c["method"] == "cg":
        x = [minimize_trust_cg(g, h, r), minimize_trust_cg_fast(g, h, r, 1e-8, 1e-6)]
    elif c["method"] == "steihaug_toint":
        x = [minimize_trust_stcg(g, h, r), minimize_trust_stcg_fast(g, h, r)]
    else:
        x = [minimize_trust_trsbox(g, h, r, lower_bounds=lo, upper_bounds=up),
             minimize_trust_trsbox_fast(g, h, r, lo, up)]
    return g, h, [np.asarray(v, float) for v in x], before == repr((g, h, lo, up))


@kind("inner")
def _inner(c):
    with np.errstate(all="ignore"):
        g, h, xs, pure = _inner_calls(c)
    if not all(np.isfinite(x).all() for x in xs):
        return {"finite": 0}
    f = [float(g @ x + x @ h @ x / 2) for x in xs]
    return {"finite": 1, "u": [_f3(x) for x in xs], "f": [fp(v, M3) for v in f],
            "agree": int(abs(f[0] - f[1]) <= 1e-6 * (1 + abs(f[0]))), "pure": int(pure)}


def rnd_inner(rng, k):
    d = int(rng.integers(1, 5))
    method = ("cg", "steihaug_toint", "trsbox")[k % 3]
    g = rng.integers(-3, 4, size=d) * int(rng.random() > 0.05)
    h = np.array(rnd_sym(rng, d, 3, str(rng.choice(["any", "psd", "psd", "low", "zero"]))))
    if rng.random() < 0.4:
        h = np.array(rnd_sym(rng, d, 3, "psd")) + np.diag(rng.integers(1, 3, size=d))
    r = int(rng.choice([1, 2, 4, 8]))
    lo, up = -rng.integers(0, 9, size=d), rng.integers(0, 9, size=d)
    # the best point along the projected steepest descent inside the domain
    p = -g.astype(float)
    if method == "trsbox":
        p[((lo == 0) & (p < 0)) | ((up == 0) & (p > 0))] = 0
    w = np.zeros(d)
    if p.any():
        t = r / 4 / np.linalg.norm(p)
        if method == "trsbox":
            t = min([t] + [(up[i] if p[i] > 0 else lo[i]) / 4 / p[i] for i in range(d) if p[i]])
        if p @ h @ p > 0:
            t = min(t, (p @ p) / (p @ h @ p))
        w = t * p
    newton = []
    if method != "trsbox" and np.linalg.eigvalsh(h)[0] > 0.3:
        x = -np.linalg.solve(h, g)
        if np.linalg.norm(x) < 0.99 * r / 4:
            newton = [int(v) for v in np.trunc(M3 * x)]
    return {"kind": "inner", "method": method, "g": g.tolist(), "H": h.tolist(), "r": r,
            "lo": lo.tolist(), "up": up.tolist(), "w": [int(v) for v in np.trunc(M3 * w)],
            "newton": newton}


@kind("linear")
def _linear(c):
    from tranquilo.subsolvers.linear_subsolvers import (
        LinearModel, improve_geomtery_trsbox_linear, minimize_trsbox_linear)
    g, r = np.array(c["g"], float), c["r"] / 4
    lo, up, cen = (np.array(c[n], float) / 4 for n in ("lo", "up", "cen"))
    model = LinearModel(intercept=float(c["a"]), linear_terms=g)
    before = repr((g, lo, up, cen))
    if c["abs"]:
        x = improve_geomtery_trsbox_linear(cen, model, lo + cen, up + cen, r) - cen
        v = abs(c["a"] + g @ x)
    else:
        x = minimize_trsbox_linear(model, lo, up, r)
        v = g @ x
    if not np.isfinite(x).all():
        return {"finite": 0}
    return {"finite": 1, "u": _f3(x), "v": fp(v, M3), "pure": int(before == repr((g, lo, up, cen)))}


def rnd_linear(rng, k):
    d = int(rng.integers(1, 5))
    g = rng.integers(-3, 4, size=d)
    r = int(rng.choice([1, 2, 4, 8]))
    lo, up = -rng.integers(0, 9, size=d), rng.integers(0, 9, size=d)
    w = []
    for sign in (-1, 1):
        a, b = 0.0, 1e3
        for _ in range(60):
            m = (a + b) / 2
            inside = np.linalg.norm(np.clip(sign * m * g, lo / 4, up / 4)) <= r / 4
            a, b = (m, b) if inside else (a, m)
        w.append([int(v) for v in np.trunc(M3 * np.clip(sign * a * g, lo / 4, up / 4))])
    return {"kind": "linear", "g": g.tolist(), "a": int(rng.integers(-3, 4)), "r": r,
            "abs": k % 2, "lo": lo.tolist(), "up": up.tolist(), "w": w,
            "cen": rng.integers(-8, 9, size=d).tolist()}
