"""Numeric components: models, fits, regions, volumes, variances."""
import itertools
import math
from fractions import Fraction

import numpy as np

from vh.cases import Frame, kind, val
from vh.numbers import BIG, fp

M3, M4, M6 = 1000, 10_000, 1_000_000


def fps(a, one):
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return fp(a, one)
    return [fps(v, one) for v in a]


def _bytes(model):
    out = []
    for f in ("intercepts", "intercept", "linear_terms", "square_terms", "shift", "scale"):
        v = getattr(model, f, None)
        out.append(None if v is None else np.asarray(v, dtype=float).tobytes())
    return tuple(out)


def build(ms, shift, scale, typ="vector", frame=None):
    """Model with integer coefficients; ms is a list of {a, g, H} (H = [] for linear)."""
    from tranquilo.models import ScalarModel, VectorModel
    g = np.array([m["g"] for m in ms], dtype=float)
    H = None if not ms[0]["H"] else np.array([m["H"] for m in ms], dtype=float)
    a = np.array([m["a"] for m in ms], dtype=float)
    shift = np.array(shift, dtype=float)
    scale = np.array(scale, dtype=float) if isinstance(scale, list) else float(scale)
    if frame is not None:
        shift, scale = frame.put(shift), frame.s * scale
    if typ == "vector":
        return VectorModel(intercepts=a, linear_terms=g, square_terms=H, shift=shift, scale=scale)
    return ScalarModel(intercept=a[0], linear_terms=g[0],
                       square_terms=None if H is None else H[0], shift=shift, scale=scale)


def region(c, r, lo=None, up=None, frame=None):
    from tranquilo.bounds import Bounds
    from tranquilo.region import Region
    b = None
    frame = frame or Frame({"frame": 0}, len(c))
    if lo is not None or up is not None:
        b = Bounds(None if lo is None else frame.put([val(v) for v in lo]),
                   None if up is None else frame.put([val(v) for v in up]))
    return Region(center=frame.put(c), radius=frame.s * r, bounds=b)


def _preds(model, u):
    y = np.asarray(model.predict(u), dtype=float)
    y1 = [np.atleast_1d(model.predict(v)) for v in u]  # one point at a time
    y = y.reshape(len(u), -1)
    if not np.allclose(y, np.array(y1), rtol=1e-9, atol=1e-9):
        return [[BIG]]
    return fps(y, M3)


@kind("move")
def _move(c):
    from tranquilo.models import move_model
    fr = Frame(c, len(c["rc"]))
    m = build(c["m"], c["shift"], c["scale"], c["typ"], fr)
    reg = region(c["rc"], c["rr"], c["lo"] or None, c["up"] or None, fr)
    before = _bytes(m)
    u = np.array(c["u"], dtype=float)
    x = m.shift + u * m.scale
    new = move_model(m, reg)
    meta = np.allclose(fr.back(new.shift), fr.back(reg.effective_center), atol=1e-6) and np.allclose(
        new.scale / fr.s, reg.effective_radius / fr.s)
    return {"y": _preds(new, reg.map_to_unit(x)), "y0": _preds(m, u), "meta": int(meta),
            "pure": int(before == _bytes(m))}


@kind("addmodels")
def _addmodels(c):
    from tranquilo.models import add_models
    m = build(c["m"], c["shift"], c["scale"], c["typ"])
    shift2, scale2 = c["shift"], c["scale"]
    where = np.ones(len(c["shift"]), dtype=bool) if c["at"] < 0 else np.arange(
        len(c["shift"])) == c["at"]
    if c["bad"] == "shift":
        shift2 = (np.array(shift2) + where).tolist()
    elif c["bad"] == "scale" and np.ndim(scale2):
        scale2 = (np.array(scale2) * (1 + where)).tolist()
    elif c["bad"] == "scale":
        scale2 = 2 * scale2
    typ2 = c["typ"]
    if c["bad"] == "type":
        typ2 = "scalar" if typ2 == "vector" else "vector"
    m2 = build(c["m2"], shift2, scale2, typ2)
    before = _bytes(m), _bytes(m2)
    new = add_models(m, m2)
    return {"y": _preds(new, np.array(c["u"], dtype=float)),
            "pure": int(before == (_bytes(m), _bytes(m2)))}


@kind("aggregate")
def _aggregate(c):
    from tranquilo.aggregate_models import get_aggregator
    m = build(c["m"], c["shift"], c["scale"])
    before = _bytes(m)
    new = get_aggregator(c["agg"])(vector_model=m)
    same = np.array_equal(new.shift, m.shift) and np.array_equal(new.scale, m.scale)
    return {"y": _preds(new, np.array(c["u"], dtype=float)),
            "pure": int(before == _bytes(m) and same)}


def _sym(rng, d, L):
    h = rng.integers(-L, L + 1, size=(d, d))
    return (np.triu(h) + np.triu(h, 1).T).tolist()


def rnd_poly(rng, d, quad, L=3):
    return {"a": int(rng.integers(-L, L + 1)), "g": rng.integers(-L, L + 1, size=d).tolist(),
            "H": _sym(rng, d, L) if quad else []}


def rnd_model_case(rng, k):
    d = int(rng.integers(1, 4))
    typ = str(rng.choice(["vector", "scalar"]))
    quad = bool(rng.random() < 0.6)
    n = 1 if typ == "scalar" else int(rng.integers(1, 4))
    kd = ["move", "addmodels", "aggregate"][k % 3]
    u = rng.integers(-2, 3, size=(4, d)).tolist()
    aniso = bool(rng.random() < 0.5)
    c = {"kind": kd, "typ": typ, "u": u, "shift": rng.integers(-3, 4, size=d).tolist(),
         "scale": rng.choice([1, 2, 4], size=d).tolist() if aniso else int(rng.choice([1, 2, 4])),
         "m": [rnd_poly(rng, d, quad) for _ in range(n)]}
    if kd == "move":
        ce = rng.integers(-2, 3, size=d)
        c.update(rc=ce.tolist(), rr=int(rng.choice([1, 2, 4])), lo=[], up=[])
        b = rng.random()
        if b < 0.4:
            c["lo"] = (ce - rng.integers(1, 4, size=d)).tolist()
            c["up"] = (ce + rng.integers(1, 4, size=d)).tolist()
        elif b < 0.6:
            c["lo"] = [int(v) if rng.random() < 0.5 else -BIG for v in ce - 1]
            c["up"] = [BIG] * d
    elif kd == "addmodels":
        c["m2"] = [rnd_poly(rng, d, quad) for _ in range(n)]
        if rng.random() < 0.2:
            c["m2"] = [rnd_poly(rng, d, not quad) for _ in range(n)]
        c["bad"] = str(rng.choice(["none", "none", "none", "shift", "scale", "type"]))
        if c["bad"] == "type" and n > 1:
            c["bad"] = "shift"
        # incompatible in one entry only
        c["at"] = int(rng.integers(d)) if rng.random() < 0.6 else -1
    else:
        c["agg"] = str(rng.choice(["least_squares_linear", "identity", "sum"]))
        c["typ"] = "vector"
        if c["agg"] == "least_squares_linear":
            c["m"] = [rnd_poly(rng, d, False) for _ in range(n)]
        elif c["agg"] == "identity":
            c["m"] = [rnd_poly(rng, d, quad)]
        else:
            c["m"] = [rnd_poly(rng, d, True) for _ in range(n)]
    return c


# ---------------------------------------------------------------------- fits
def features(u, quad):
    d = len(u)
    f = [Fraction(1)] + [Fraction(v) for v in u]
    if quad:
        for i in range(d):
            f.append(Fraction(u[i] * u[i], 2))
            for j in range(i + 1, d):
                f.append(Fraction(u[i] * u[j]))
    return f


def rank(rows):
    rows = [list(map(Fraction, r)) for r in rows]
    r = 0
    for col in range(len(rows[0]) if rows else 0):
        p = next((i for i in range(r, len(rows)) if rows[i][col] != 0), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            if rows[i][col] != 0:
                f = rows[i][col] / rows[r][col]
                rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r


def poly(m, u):
    d = len(u)
    v = Fraction(m["a"]) + sum(a * b for a, b in zip(m["g"], u))
    if m["H"]:
        v += Fraction(sum(m["H"][i][j] * u[i] * u[j] for i in range(d) for j in range(d)), 2)
    return v


def before_move(ms, cen, sc, shift, scale):
    """Models with the given shift and scale that are ms after a move to cen and sc."""
    p = (np.array(shift, float) - cen) / sc
    q = np.broadcast_to(np.array(scale, float) / sc, p.shape)
    out = []
    for m in ms:
        g = np.array(m["g"], float)
        h = np.array(m["H"], float) if m["H"] else np.zeros((len(p), len(p)))
        out.append({"a": m["a"] + g @ p + p @ h @ p / 2, "g": (q * (g + h @ p)).tolist(),
                    "H": (np.outer(q, q) * h).tolist() if m["H"] else []})
    return out


@kind("fit")
def _fit(c):
    from tranquilo.fit_models import get_fitter
    d = len(c["rc"])
    fr = Frame(c, d)
    reg = region(c["rc"], c["rr"], c["lo"] or None, c["up"] or None, fr)
    if c["lo"]:
        lo, up = np.array(c["lo"], float), np.array(c["up"], float)
        cen, sc = (lo + up) / 2, (up - lo) / 2
    else:
        cen, sc = np.array(c["rc"], float), float(c["rr"])
    u = np.array(c["u"], dtype=float)
    x = fr.put(cen + sc * u)
    y = np.array([[float(poly(m, p)) + e for m, e in zip(c["m"], es)]
                  for p, es in zip(c["u"], c["e"])])
    kw = {}
    if c["fitter"] == "ridge":
        kw["fitter_options"] = {"l2_penalty_linear": c["pen"][1] / c["penden"],
                                "l2_penalty_square": 4 * c["pen"][-1] / c["penden"]
                                if c["type"] == "quadratic" else 0.1}
    elif c["fitter"] == "tranquilo":
        # the criterion is the sum of squared penalised coefficients
        r = [math.sqrt(p / 4) for p in c["pen"]]
        kw["fitter_options"] = {"p_intercept": r[0], "p_linear": r[1],
                                "p_square": 2 * r[-1] if c["type"] == "quadratic" else 1.0}
    f = get_fitter(c["fitter"], model_type=c["type"], residualize=bool(c["resid"]),
                   infinity_handling="relative", **kw)
    if c["resid"]:
        old = build(before_move(c["mold"], cen, sc, c["oshift"], c["oscale"]),
                    c["oshift"], c["oscale"], frame=fr)
    else:
        old = build([{"a": 9, "g": [7] * d, "H": []}] * len(c["m"]), [1] * d, 2, frame=fr)
    before = x.tobytes(), y.tobytes(), _bytes(old)
    m = f(x, y, region=reg, old_model=old, weights=None)
    pure = before == (x.tobytes(), y.tobytes(), _bytes(old))
    iu = [(i, j) for i in range(d) for j in range(i, d)]
    coef = []
    symmetric = True
    for r in range(len(c["m"])):
        row = [m.intercepts[r], *m.linear_terms[r]]
        if c["type"] == "quadratic":
            h = m.square_terms[r]
            symmetric &= bool(np.allclose(h, h.T))
            row += [h[i, j] for i, j in iu]
        coef.append(fps(np.array(row), M4))
    meta = (symmetric and np.allclose(fr.back(m.shift), cen, atol=1e-6)
            and np.allclose(m.scale / fr.s, sc))
    return {"coef": coef, "pure": int(pure), "meta": int(meta)}


def _diagonal(d, quad):
    out, pos = [], d + 1
    for i in range(d if quad else 0):
        out.append(pos)
        pos += d - i
    return out


def rnd_fit(rng, k):
    for _ in range(1000):
        d = int(rng.choice([1, 1, 2, 2, 2, 3]))
        quad = bool(rng.random() < 0.7)
        fitter = str(rng.choice(["ols", "tranquilo", "ridge", "powell"] if quad
                                else ["ols", "tranquilo", "ridge"]))
        n_free = 1 + d + (d * (d + 1) // 2 if quad else 0)
        n = int(rng.integers(d + 1, n_free + 4))
        grid = list(itertools.product(range(-2, 3) if d < 3 else range(-1, 2), repeat=d))
        if n > len(grid):
            continue
        u = [list(map(int, grid[i])) for i in rng.choice(len(grid), size=n, replace=False)]
        if fitter == "powell" and rng.random() < 0.5:
            u.sort()  # the first points may lie on a line
        rk = rank([features(p, quad) for p in u])
        det = rk == n_free
        under = rk == n < n_free
        if fitter == "powell" and n >= n_free and not det:
            continue
        if fitter == "powell" and (rank([features(p, False) for p in u]) < d + 1):
            continue
        if n == d + 1 and fitter == "powell" and not under:
            continue
        if fitter == "ridge" and (rank([features(p, False) for p in u]) < d + 1):
            continue
        break
    else:
        raise RuntimeError
    resid = int(rng.random() < 0.3)
    n_res = int(rng.integers(1, 4))
    ms = [rnd_poly(rng, d, quad) for _ in range(n_res)]
    # values that no model of the class has in all points
    misfit = int(det and n > n_free and fitter != "ridge" and rng.random() < 0.6)
    err = (rng.integers(-3, 4, size=(n, n_res)) * misfit).tolist()
    pen, penden = [0] * n_free, 1
    if fitter == "ridge":
        penden = 4
        p1, p2 = int(rng.integers(0, 5)), int(rng.integers(1, 9))
        pen = [0] + [p1] * d + [p2] * (n_free - d - 1)
        if not quad:
            pen = [0] + [int(rng.integers(1, 9))] * d
    elif fitter == "tranquilo":
        a, b, e = (int(v) for v in rng.choice([1, 4, 9], size=3))
        pen = [a] + [b] * d + [e] * (n_free - d - 1)
    elif fitter == "ols":
        pen = [1] * n_free
    # the second order features are the plain products, the model has halved squares
    diag = [False] * n_free
    for pos in _diagonal(d, quad):
        diag[pos] = True
    pen = [p if g else 4 * p for p, g in zip(pen, diag)]
    penden *= 4
    if fitter == "powell":  # Frobenius norm of the Hessian
        pen = [0] * (d + 1) + [1 if g else 2 for g in diag[d + 1:]]
        if n == d + 1:
            pen = [0] * n_free  # linear interpolation
    c = {"kind": "fit", "type": "quadratic" if quad else "linear", "fitter": fitter, "u": u,
         "e": err, "misfit": misfit,
         "m": ms, "det": int(det), "orth": int(n_free <= 6), "pen": pen,
         "penden": penden, "resid": resid, "rc": rng.integers(-2, 3, size=d).tolist(),
         "rr": int(rng.choice([1, 2, 4])), "lo": [], "up": []}
    if rng.random() < 0.5:
        ce = np.array(c["rc"])
        c["rr"] = 64
        c["lo"] = (ce - rng.choice([1, 2, 3], size=d)).tolist()
        c["up"] = (ce + rng.choice([1, 2, 5], size=d)).tolist()
        # even side lengths
        c["up"] = [int(b + (b - a) % 2) for a, b in zip(c["lo"], c["up"])]
    if resid:
        # the old model after the move to the region
        c["mold"] = [rnd_poly(rng, d, quad) for _ in range(n_res)]
        c["oshift"] = rng.integers(-2, 3, size=d).tolist()
        c["oscale"] = int(rng.choice([1, 2])) if rng.random() < 0.4 else rng.choice(
            [1, 2, 4], size=d).tolist()
        if rng.random() < 0.4:  # the region has moved but kept its size
            half = [(b - a) // 2 for a, b in zip(c["lo"], c["up"])] or c["rr"]
            if isinstance(half, int) or set(half) <= {1, 2, 4}:
                c["oscale"] = half
    return c


# ------------------------------------------------------------------- regions
@kind("region")
def _region(c):
    d = len(c["c"])
    none_lo, none_up = all(v <= -BIG for v in c["lo"]), all(v >= BIG for v in c["up"])
    fr = Frame(c, d)
    reg = region(c["c"], c["r"], None if none_lo and c["none"] else c["lo"],
                 None if none_up and c["none"] else c["up"], fr)
    lo, up = (fr.put([val(v) for v in c[k]]) for k in ("lo", "up"))
    cen = reg.center.copy()
    out = {"shape": str(reg.shape)}
    if reg.shape == "cube":
        cb = reg.cube_bounds
        out["cl"], out["cu"] = fps(fr.back(cb.lower), M3), fps(fr.back(cb.upper), M3)
    out["effc"] = fps(fr.back(reg.effective_center), M3)
    out["effr"] = fps(np.broadcast_to(reg.effective_radius / fr.s, (d,)), M3)
    x = fr.put(c["x"])
    u = reg.map_to_unit(x)
    out["u"] = fps(np.clip(u, -1000, 1000), M3)
    out["back"] = fps(np.clip(fr.back(reg.map_from_unit(u)), -1000, 1000), M6)
    grid = np.array(list(itertools.product([-1.0, -0.3, 0.0, 1 / 3, 1.0], repeat=d)))
    if reg.shape == "sphere":
        norm = np.linalg.norm(grid, axis=1, keepdims=True)
        grid = grid / np.where(norm > 1, norm, 1.0)
    img = reg.map_from_unit(grid)
    img1 = np.array([reg.map_from_unit(g) for g in grid])
    out["inb"] = int((img >= lo).all() and (img <= up).all() and np.array_equal(img, img1))
    back = reg.map_to_unit(img)
    out["unitback"] = int(np.allclose(back, grid, rtol=0,
                                      atol=1e-9 if fr.off[0] == 0 else 1e-6))
    r2 = reg._replace(radius=reg.radius * 2)
    out["pure"] = int(np.array_equal(cen, reg.center) and reg.radius == fr.s * c["r"]
                      and r2.radius == 2 * fr.s * c["r"])
    return out


def rnd_region(rng, k):
    d = int(rng.integers(1, 6))
    ce = rng.integers(-5, 6, size=d)
    r = int(rng.integers(1, 7))
    lo = [int(v - rng.integers(0, 9)) if rng.random() < 0.5 else -BIG for v in ce]
    up = [int(v + rng.integers(0, 9)) if rng.random() < 0.5 else BIG for v in ce]
    if rng.random() < 0.2:
        lo = [-BIG] * d
    if rng.random() < 0.2:
        up = [BIG] * d
    up = [int(u + 1) if u == v else u for u, v in zip(up, lo)]
    x = ce + rng.integers(-4, 5, size=(6, d))
    return {"kind": "region", "c": ce.tolist(), "r": r, "lo": lo, "up": up, "x": x.tolist(),
            "none": bool(rng.random() < 0.5)}


@kind("volume")
def _volume(c):
    import tranquilo.volume as v
    d, r = c["d"], c["r"] * c["unit"]
    f = c["f"]

    def ratio(a, b):
        return fp(a / b, M6)

    cube, ball = v.get_volume(r, d, "cube"), v.get_volume(r, d, "sphere")
    a = v.get_radius_of_sphere_with_volume_of_cube(r, d)
    b = v.get_radius_of_cube_with_volume_of_sphere(r, d)
    af = v.get_radius_of_sphere_with_volume_of_cube(r, d, scaling_factor=f)
    bf = v.get_radius_of_cube_with_volume_of_sphere(r, d, scaling_factor=f)
    s = v.get_radius_after_volume_scaling(r, d, f)
    rs = [r * g for g in (1, 1.01, 1.5, 3, 7)]
    mono = True
    for fn in (lambda q: v.get_volume(q, d, "cube"), lambda q: v.get_volume(q, d, "sphere"),
               lambda q: v.get_radius(q, d, "cube"), lambda q: v.get_radius(q, d, "sphere"),
               lambda q: v.get_radius_of_sphere_with_volume_of_cube(q, d),
               lambda q: v.get_radius_of_cube_with_volume_of_sphere(q, d),
               lambda q: v.get_radius_after_volume_scaling(q, d, f)):
        ys = [float(fn(q)) for q in rs]
        mono &= all(p < q for p, q in zip(ys, ys[1:]))
    rej = True
    for fn in (v.get_volume, v.get_radius):
        try:
            fn(1.0, d, "ball")
            rej = False
        except Exception:  # noqa: BLE001
            pass
    recur = v.get_volume(1.0, d, "sphere") / v.get_volume(1.0, d - 2, "sphere") if d > 2 else 1.0
    return {
        "cube": fp(cube, M4), "ball": fp(ball, M4),
        "invcube": ratio(v.get_radius(cube, d, "cube"), r),
        "invball": ratio(v.get_radius(ball, d, "sphere"), r),
        "conv": ratio(v.get_radius_of_cube_with_volume_of_sphere(a, d), r),
        "conv2": ratio(v.get_radius_of_sphere_with_volume_of_cube(b, d), r),
        "vol1": ratio(v.get_volume(a, d, "sphere"), cube),
        "vol2": ratio(v.get_volume(b, d, "cube"), ball),
        "vol3": ratio(v.get_volume(af, d, "sphere"), cube * f),
        "vol4": ratio(v.get_volume(bf, d, "cube"), ball * f),
        "scal": ratio(v.get_volume(s, d, "cube"), cube * f),
        "mono": int(mono), "rej": int(rej), "recur": fp(recur, M6),
    }


def volume_space(big):
    out = []
    for d in [*range(1, 33), 40, 55, 80]:
        for r, unit in [(1, 1.0), (2, 1.0), (3, 1.0), (0, 0.0)]:
            for f in (0.25, 0.5, 1.0, 2.0, 3.0) if big else (0.25, 1.0, 3.0):
                if r == 0:
                    continue
                out.append({"kind": "volume", "d": d, "r": r, "unit": unit, "f": f})
        for unit in (1e-3, 0.37, 12.5):
            if d > 40 and unit < 0.1:
                continue  # the volume is too small for a double
            out.append({"kind": "volume", "d": d, "r": 1, "unit": unit, "f": 1.7})
    for c in out:
        if c["unit"] != 1.0:
            c["d"] = max(c["d"], 5)  # the exact values are checked for integer radii
    return out


# ----------------------------------------------------------------- variances
def make_history(ft, pts, v, order=None):
    from tranquilo.history import History
    h = History(functype=ft)
    idx = h.add_xs(np.array(pts, dtype=float))
    todo = [(int(i), w) for i, ws in zip(idx, v) for w in ws]
    if order is not None:
        # keep the order of the replicates of a point
        perm = order(len(todo))
        where = {}
        for p in perm:
            where.setdefault(todo[p][0], []).append(p)
        for q in where.values():
            q.sort(reverse=True)
        todo = [todo[where[todo[p][0]].pop()] for p in perm]
    for i, w in todo:
        h.add_evals([i], np.array([w], dtype=float) if ft != "scalar" else np.array([w[0]], float))
    return h


@kind("variance")
def _variance(c):
    from tranquilo.estimate_variance import get_variance_estimator
    rng = np.random.default_rng(len(c["pts"]))
    bad = {1: [math.inf], 2: [-math.inf], 3: None}
    v = [[w if f == 0 else
          (w[:-1] + bad[f] if bad[f] else [math.inf] * len(w)) for w, f in zip(ws, fs)]
         for ws, fs in zip(c["v"], c["fail"])]
    fr = Frame(c, len(c["cx"]))
    # noise that is small or large compared to the values
    vf = Frame({"frame": 0 if c["ft"] == "least_squares" else c["frame"]}, 1)
    v = [[[float(vf.put(a)[0]) for a in w] for w in ws] for ws in v]
    h = make_history(c["ft"], fr.put(c["pts"]), v, lambda n: list(rng.permutation(n)))
    reg = region(c["cx"], c["r"], frame=fr)
    est = get_variance_estimator("classic", {"max_distance_factor": c["fac"] / c["facden"],
                                             "min_n_evals": c["min"]})
    n = h.get_n_fun()
    s = est(trustregion=reg, history=h, model_type="scalar")
    m = np.atleast_2d(est(trustregion=reg, history=h, model_type="vector"))
    return {"s": fp(s / vf.s**2, M3), "m": fps(m / vf.s**2, M3),
            "pure": int(h.get_n_fun() == n and reg.radius == fr.s * c["r"])}


def rnd_variance(rng, k):
    d = int(rng.integers(1, 3))
    ft = str(rng.choice(["least_squares", "likelihood", "scalar"]))
    n = int(rng.integers(1, 6))
    pts = rng.integers(-6, 7, size=(n, d))
    nv = 1 if ft == "scalar" else int(rng.integers(2, 4))
    cx = pts[int(rng.integers(n))]
    r, fac = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    den = int(rng.choice([1, 1, 2]))
    near = den**2 * ((pts - cx) ** 2).sum(axis=1) <= (r * fac) ** 2
    reps = rng.choice([1, 2, 3, 4, 5], size=n)
    if reps[near].max() < 2 and rng.random() < 0.9:
        reps[np.flatnonzero(near)[0]] = 2
    v = [rng.integers(-3, 4, size=(q, nv)).tolist() for q in reps]
    p = 0.0 if rng.random() < 0.5 else float(rng.choice([0.1, 0.5]))
    fail = [[int(rng.integers(1, 4)) if rng.random() < p else 0 for _ in w] for w in v]
    return {"kind": "variance", "ft": ft, "pts": pts.tolist(), "v": v, "fail": fail,
            "cx": cx.tolist(), "r": r, "fac": fac, "facden": den, "min": int(rng.integers(1, 6))}


def run_volume(run):
    from vh.cases import run_cases
    from vh.env import THOROUGH
    run_cases(run, volume_space(THOROUGH))
