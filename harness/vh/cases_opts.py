"""Resolution of components and processing of arguments (C23, C24)."""
import functools
import inspect
import warnings
from collections import namedtuple
from typing import NamedTuple

import numpy as np

from vh.cases import kind


class _Defaults(NamedTuple):
    opt1: int = 1
    opt2: float = 2.0
    opt3: object = None
    opt4: str = "4"


TYPES = {"int": int, "float": float, "str": str, "none": lambda v: None}


def _pyval(v):
    return TYPES[v[0]](v[1])


def _code(v):
    if v is None:
        return ["none", 0]
    t = type(v).__name__
    if t == "str":
        return ["str", int(v) if v.isdigit() else -1]
    return [t, int(v)]


class _Callable:
    """A component that is an object with a call method."""

    def __init__(self, f, sig):
        self.__signature__ = inspect.signature(f)
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)


def _user(c):
    u = {e["name"]: _pyval(e["v"]) for e in c["user"]}
    if c["form"] == "tuple":
        return namedtuple("U", list(u))(**u), dict(u)
    return u, dict(u)


def _make(sig, who, log, own=0):
    """A component that logs its arguments; the last `own` arguments have defaults."""
    ns = {"log": log}
    body = ", ".join(f"{n!r}: {n}" for n in sig)
    args = [n if k < len(sig) - own else f"{n}=77" for k, n in enumerate(sig)]
    exec(f"def {who}({', '.join(args)}):\n    log.append(({who!r}, {{{body}}}))\n    return 1", ns)
    return ns[who]


@kind("component")
def _component(c):
    from tranquilo.get_component import get_component
    log = []
    a, b, u = (_make(c["sig"], n, log, c["own"]) for n in ("alpha", "beta", "u"))
    user, copy = _user(c)
    d = _Defaults()
    funcs = {"alpha": a, "beta": b}
    name = {"callable": u, "partial": functools.partial(u), "object": _Callable(u, c["sig"]),
            "unknown": "delta", "begin": "alp", "longer": "alpha1", "upper": "Beta",
            "space": "beta ", "empty": "", "number": 3, "none": None}.get(c["comp"], c["comp"])
    out = {"built": 1, "called": 0, "who": "", "got": [], "warnopt": 0, "warnarg": 0}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            f = get_component(name_or_func=name, component_name="part", func_dict=funcs,
                              default_options=d, user_options=user,
                              redundant_option_handling=c["redopt"],
                              redundant_argument_handling=c["redarg"],
                              mandatory_signature=c["mand"])
        except (ValueError, TypeError):
            out["built"] = 0
    out["warnopt"] = int(bool(w))
    if out["built"]:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                f(*c["args"], **{e["name"]: _pyval(e["v"]) for e in c["kw"]})
                out["called"] = len(log)
            except TypeError:
                pass
        out["warnarg"] = int(bool(w))
        if out["called"] == 1:
            who, got = log[0]
            out["who"] = who
            out["got"] = [_code(got[n]) for n in c["sig"]]
    now = user if isinstance(user, dict) else user._asdict()
    out["pure"] = int(now == copy and d == _Defaults() and list(funcs) == ["alpha", "beta"])
    return out


@kind("bundle")
def _bundle(c):
    from tranquilo.options import update_option_bundle
    user, copy = _user(c)
    d = _Defaults()
    out = {"built": 1, "got": {}}
    try:
        new = update_option_bundle(d, user)
        out["got"] = {k: _code(v) for k, v in new._asdict().items()}
    except (ValueError, TypeError):
        out["built"] = 0
    now = user if isinstance(user, dict) else user._asdict()
    out["pure"] = int(now == copy and d == _Defaults())
    return out


# --------------------------------------------------------------- arguments
BAD = {
    "functype": {"functype": "matrix"}, "model_type": {"model_type": "cubic"},
    "sample_filter": {"sample_filter": "keep_some"}, "model_fitter": {"model_fitter": "lasso"},
    "acceptance_decider": {"acceptance_decider": "greedy"}, "sampler": {"sampler": "grid"},
    "cube_subsolver": {"cube_subsolver": "gqtpar"}, "sphere_subsolver": {"sphere_subsolver": "bntr"},
    "variance_estimator": {"variance_estimator": "modern"},
    "infinity_handler": {"infinity_handler": "absolute"},
    "batch_evaluator": {"batch_evaluator": "threads"}, "batch_evaluator2": {"batch_evaluator": 3},
    "radius_options": {"radius_options": {"max_radiuss": 1.0}},
    "stagnation_options": {"stagnation_options": {"dropping": True}},
    "noise_options": {"noise_adaptation_options": {"n_draws": 3}},
    "sampler_options": {"sampler_options": {"hard": 1.0}},
    "filter_options": {"sample_filter_options": {"n_min": 1}},
    "fitter_options": {"model_fitter_options": {"l2": 1.0}},
    "subsolver_options": {"subsolver_options": {"tolerance": 1.0}},
    "decider_options": {"acceptance_decider_options": {"power": 1.0}},
    "variance_options": {"variance_estimator_options": {"distance": 1.0}},
    "residualize1": {"residualize": 1}, "residualize2": {"residualize": "yes"},
    "sampler_type": {"sampler": 5}, "fitter_type": {"model_fitter": [1]},
}
M3 = 1000
CONV = ["convergence_absolute_criterion_tolerance", "convergence_absolute_gradient_tolerance",
        "convergence_absolute_params_tolerance", "convergence_relative_criterion_tolerance",
        "convergence_relative_gradient_tolerance", "convergence_relative_params_tolerance"]


def _arg_kwargs(c):
    a = c["a"]
    kw = {"noisy": bool(a["noisy"]), "n_cores": a["cores"], "seed": a["seed"],
          "model_fitter_options": {"l2_penalty_linear": 0.2}}

    def put(key, name, none=-1, f=lambda v: v):
        if a[key] != none:
            kw[name] = f(a[key])

    put("batch", "batch_size")
    put("mtype", "model_type", "none")
    if a["size"] == -2:
        kw["sample_size"] = lambda x, model_type: len(x) + (9 if model_type == "quadratic" else 4)
    else:
        put("size", "sample_size")
    put("fitter", "model_fitter", "none")
    put("resid", "residualize", f=bool)
    put("filter", "sample_filter", "none")
    put("decider", "acceptance_decider", "none")
    put("search", "search_radius_factor", f=lambda v: v / M3)
    put("nstart", "n_evals_at_start")
    put("npp", "n_evals_per_point")
    put("maxiter", "stopping_max_iterations")
    put("maxeval", "stopping_max_criterion_evaluations")
    put("maxtime", "stopping_max_time", f=lambda v: float(v))
    r = {}
    if a["radius"] != -1:
        r["initial_radius"] = a["radius"] / M3
    if a["maxradius"] != -1:
        r["max_radius"] = a["maxradius"]
    if r:
        kw["radius_options"] = r
    s = {}
    if a["keep"] != -1:
        s["min_relative_step_keep"] = a["keep"] / M3
    if a["drop"] != -1:
        s["drop"] = bool(a["drop"])
    if a["minstep"] != -1:
        s["min_relative_step"] = a["minstep"] / M3
    if s:
        kw["stagnation_options"] = s
    if a["adaptmin"] != -1:
        kw["noise_adaptation_options"] = {"min_n_evals": a["adaptmin"]}
    if a["conv"][0] != -1:
        kw["disable_convergence"] = bool(a["conv"][0])
    for k, n in zip(a["conv"][1:], CONV):
        if k != -1:
            kw[n] = k * 1e-10
    return kw


class _Stub:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def _probe_filter(p, x, target):
    n = 3 * target + 2
    xs = np.vstack([x, x + 10.0 * np.arange(1, n).reshape(-1, 1) * np.ones(len(x))])
    st = _Stub(x=x, index=0, trustregion=_Stub(center=x, radius=1.0))
    _, kept = p(xs=xs, indices=np.arange(n), state=st, target_size=target, history=None,
                n_evals_per_point=1)
    return {n: "keep_all", 1: "discard_all", 3 * target: "drop_excess"}.get(len(kept), "other")


def _probe_decider(p, x, ft, reg, batch):
    from tranquilo.history import History
    h = History(functype=ft)
    h.add_xs(x)
    one = {"scalar": 1.0, "likelihood": np.array([1.0]), "least_squares": np.array([1.0])}[ft]
    for _ in range(7):
        h.add_evals([0], [one])
    calls = []

    def crit(info):
        calls.append({int(k): int(v) for k, v in info.items()})
        for k, v in info.items():
            for _ in range(v):
                h.add_evals([k], [one])

    st = _Stub(x=x, index=0, fval=1.0, trustregion=reg)
    sol = _Stub(x=x + 1e-3, expected_improvement=0.5)
    p(subproblem_solution=sol, state=st, wrapped_criterion=crit, noise_variance=0.0, history=h,
      search_radius_factor=4.0, batch_size=batch,
      sample_points=lambda trustregion, n_points, *g, **k: x + 1e-4 * np.arange(1, n_points + 1).reshape(-1, 1),
      rng=np.random.default_rng(0))
    info = calls[0]
    n_cand = info.get(1, 0)
    if len(info) == 1 and n_cand == 1:
        return "classic"
    if len(info) == 1 and n_cand == 10:
        return "naive_noisy"
    if len(info) > 2:
        return "classic_line_search"
    return "noisy" if 0 in info else "other"


def _probe_fitter(p, reg, mtype, nres=2):
    """Name and residualization of the fitter with the same behaviour."""
    from tranquilo.fit_models import get_fitter
    from vh.cases_num import build
    c, r = np.array(reg.effective_center), np.array(reg.effective_radius)
    d = len(c)
    rng = np.random.default_rng(5)
    n = d if mtype == "linear" else d + 1
    x = reg.map_from_unit(rng.uniform(-0.6, 0.6, size=(n, d)))
    y = rng.normal(size=(n, nres))
    old = build([{"a": 3 + k, "g": [2 + k] * d,
                  "H": (np.eye(d) + 1).tolist()} for k in range(nres)], c.tolist(), r.tolist())

    def run(f):
        m = f(x, y, region=reg, old_model=old, weights=None)
        return np.concatenate([m.intercepts, m.linear_terms.ravel()])

    got = run(p)
    m = p(x, y, region=reg, old_model=old, weights=None)
    for name in ("ols", "tranquilo", "ridge", "powell"):
        for res in (False, True):
            ref = get_fitter(name, model_type=mtype, residualize=res,
                             infinity_handling="relative",
                             fitter_options={"l2_penalty_linear": 0.2})
            want = ref(x, y, region=reg, old_model=old, weights=None)
            if (np.allclose(run(ref), got, atol=1e-9)
                    and (want.square_terms is None) == (m.square_terms is None)
                    and (m.square_terms is None or np.allclose(m.square_terms, want.square_terms))):
                return name, int(res)
    return "other", -1


@kind("args")
def _args(c):
    from tranquilo.process_arguments import process_arguments
    from vh.cases import val
    from vh.cases_num import fps
    from vh.numbers import BIG, fp
    a = c["a"]
    kw = _arg_kwargs(c)
    kw.update(BAD.get(c["bad"], {}))
    x = np.array(a["x"], dtype=float if c["xform"] else int)
    xin = x if c["xform"] else a["x"]
    lo = None if all(v <= -BIG for v in c["lo"]) and c["xform"] else np.array(
        [val(v) for v in c["lo"]])
    up = None if all(v >= BIG for v in c["up"]) and c["xform"] else np.array(
        [val(v) for v in c["up"]])
    ft = kw.pop("functype", a["ft"])

    def crit(z):
        raise AssertionError("no evaluation while arguments are processed")

    nested = {k: dict(v) for k, v in kw.items() if isinstance(v, dict)}

    warned = []

    def make(seed):
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            res = process_arguments(ft, crit, xin, lo, up, **{**kw, "seed": seed})
        warned.append(sum("experimental" in str(w.message) for w in seen))
        return res

    before = np.array(xin).copy(), None if lo is None else lo.copy(), None if up is None else up.copy()
    try:
        p = make(a["seed"])
    except (ValueError, TypeError, KeyError, NotImplementedError):
        return {"built": 0}
    reg = p["trustregion"]
    q, other = make(a["seed"]), make(a["seed"] + 1)
    xs = np.asarray(p["x"], float)
    nx = int(p["history"].get_n_xs())
    center = np.array(reg.center)
    bl, bu = reg.bounds.lower, reg.bounds.upper
    d = len(xs)
    mtype = None
    # the type of the model the fitter returns
    from vh.cases_num import build
    rng = np.random.default_rng(1)
    xf = reg.map_from_unit(rng.uniform(-0.6, 0.6, size=(2 * d + 2, d)))
    old = build([{"a": 0, "g": [0] * d, "H": np.zeros((d, d)).tolist()}],
                np.array(reg.effective_center).tolist(), np.array(reg.effective_radius).tolist())
    old = old._replace(square_terms=None)
    m = p["fit_model"](xf, rng.normal(size=(len(xf), 1)), region=reg, old_model=old, weights=None)
    mtype = "linear" if m.square_terms is None else "quadratic"
    fitter, resid = _probe_fitter(p["fit_model"], reg, mtype)
    draws = [(z["sampling_rng"].integers(10**9), z["simulation_rng"].integers(10**9))
             for z in (p, q, other)]
    seeded = draws[0] == draws[1] and draws[0][0] != draws[2][0] and draws[0][1] != draws[2][1]
    co, so, ro, st = (p[k] for k in ("conv_options", "stop_options", "radius_options",
                                     "stagnation_options"))
    out = {
        "built": 1, "batch": int(p["batch_size"]), "size": int(p["target_sample_size"]),
        "search": fp(p["search_radius_factor"], M3), "nstart": int(p["n_evals_at_start"]),
        "npp": int(p["n_evals_per_point"]), "radius": fp(ro.initial_radius, M3),
        "regradius": fp(reg.radius, M3), "maxradius": fp(ro.max_radius, 1),
        "keep": fp(st.min_relative_step_keep, M3), "drop": int(st.drop),
        "minstep": fp(st.min_relative_step, M3),
        "filter": _probe_filter(p["filter_points"], xs, int(p["target_sample_size"])),
        "decider": _probe_decider(p["accept_candidate"], xs, ft, reg, int(p["batch_size"])),
        "mtype": mtype, "fitter": fitter, "resid": resid, "noisy": int(p["noisy"]),
        "maxiter": int(so.max_iter), "maxeval": int(so.max_eval),
        "maxtime": -1 if np.isinf(so.max_time) else int(so.max_time),
        "conv": [int(co.disable)] + [fp(v, 10**10) for v in (
            co.ftol_abs, co.gtol_abs, co.xtol_abs, co.ftol_rel, co.gtol_rel, co.xtol_rel)],
        "x": fps(xs, M3), "nxs": nx, "center": fps(center, M3),
        "lo": [-BIG] * d if bl is None else [-BIG if v == -np.inf else fp(v, 1) for v in bl],
        "up": [BIG] * d if bu is None else [BIG if v == np.inf else fp(v, 1) for v in bu],
        "seeded": int(seeded), "warned": warned,
    }
    now = np.array(xin), lo, up
    pure = all((u is None and w is None) or np.array_equal(u, w) for u, w in zip(before, now))
    pure &= all(kw[k] == v for k, v in nested.items())
    out["pure"] = int(pure)
    return out


def rnd_args(rng, k):
    def pick(*vals):
        return vals[int(rng.integers(len(vals)))]

    from vh.numbers import BIG
    ft = ["least_squares", "scalar", "likelihood"][k % 3]
    d = int(rng.integers(1, 5))
    x = rng.integers(-4, 5, size=d).tolist() if rng.random() < 0.9 else [0] * d
    a = {
        "ft": ft, "d": d, "x": x, "noisy": pick(0, 1), "cores": pick(1, 1, 2, 4),
        "batch": pick(-1, -1, 4, 6), "mtype": pick("none", "none", "none", "linear", "quadratic"),
        "size": pick(-1, -1, -1, -2, d + 2, 2 * d + 1, d + 1 + d * (d + 1) // 2, 9),
        "fitter": pick("none", "none", "none", "ols", "ridge", "tranquilo"),
        "resid": pick(-1, -1, 0, 1), "filter": pick("none", "none", "keep_all", "discard_all",
                                                    "drop_excess"),
        "decider": pick("none", "none", "classic", "noisy", "naive_noisy", "classic_line_search"),
        "search": pick(-1, -1, 2500, 1000), "nstart": pick(-1, -1, 1, 3),
        "npp": pick(-1, -1, 1, 4), "adaptmin": pick(-1, -1, 2), "radius": pick(-1, -1, 700),
        "maxradius": pick(-1, 50), "keep": pick(-1, -1, 250, 0), "drop": pick(-1, -1, 0, 1),
        "minstep": pick(-1, 100), "maxiter": pick(-1, 7), "maxeval": pick(-1, 33),
        "maxtime": pick(-1, 5), "conv": [pick(-1, 0, 1)] + [pick(-1, 30 + j) for j in range(6)],
        "seed": int(rng.integers(10**6)),
    }
    if rng.random() < 0.5:
        a["mtype"] = "none"
    if a["decider"] == "classic_line_search" and max(a["cores"], a["batch"]) < 4:
        a["batch"] = 4
    bad = "none"
    z = rng.random()
    if z < 0.15:
        bad = pick(*BAD)
    elif z < 0.3:
        key, v = pick(("batch", a["cores"] - 1), ("search", 0), ("search", -500), ("nstart", 0),
                      ("nstart", -2), ("npp", 0), ("npp", -3), ("batch", 0))
        # -1 stands for an argument that is not given
        if v != -1:
            a[key] = v
    lo = [int(v - rng.integers(1, 4)) if rng.random() < 0.4 else -BIG for v in x]
    up = [int(v + rng.integers(1, 4)) if rng.random() < 0.4 else BIG for v in x]
    return {"kind": "args", "a": a, "bad": bad, "lo": lo, "up": up, "xform": pick(0, 1)}


def run_bad(run):
    """Every kind of bad value once for every functype."""
    from vh.cases import run_cases
    inputs = []
    for k, b in enumerate(BAD):
        for j in range(3):
            c = rnd_args(np.random.default_rng([9, k, j]), j)
            c["bad"] = b
            c["a"].update(mtype="none", cores=1, batch=-1, search=-1, nstart=-1, npp=-1)
            inputs.append(c)
    run_cases(run, inputs)
