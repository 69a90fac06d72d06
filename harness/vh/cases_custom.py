"""Runs with a user supplied component (C23)."""
import copy
from collections import namedtuple

import numpy as np

from vh import scen
from vh.cases import kind
from vh.numbers import fp

SLOTS = {
    "sampler": (["trustregion", "n_points", "existing_xs", "rng"],
                ["hardness", "n_points_randomsearch"], "sampler_options"),
    "sample_filter": (["xs", "indices", "state", "target_size", "history", "n_evals_per_point"],
                      ["strictness", "n_max_factor"], "sample_filter_options"),
    "model_fitter": (["x", "y", "model_type"],
                     ["l2_penalty_linear", "l2_penalty_square", "p_intercept", "p_linear",
                      "p_square"], "model_fitter_options"),
    "sphere_subsolver": (["model", "x_candidate"],
                         ["maxiter", "maxiter_gradient_descent", "k_easy", "k_hard",
                          "gtol_scaled"], "subsolver_options"),
    "cube_subsolver": (["model", "x_candidate", "lower_bounds", "upper_bounds"],
                       ["maxiter", "maxiter_gradient_descent", "k_easy", "k_hard",
                        "gtol_scaled"], "subsolver_options"),
    "acceptance_decider": (["subproblem_solution", "state", "wrapped_criterion",
                            "noise_variance", "history", "search_radius_factor", "batch_size",
                            "sample_points", "rng"],
                           ["confidence_level", "power_level", "n_initial", "n_min", "n_max",
                            "min_improvement", "speculative_sampling_radius_factor"],
                           "acceptance_decider_options"),
    "variance_estimator": (["trustregion", "history", "model_type"],
                           ["max_distance_factor", "min_n_evals"], "variance_estimator_options"),
    "infinity_handler": (["fvecs"], [], None),
}
MANDATORY = {"sampler": SLOTS["sampler"][0], "model_fitter": SLOTS["model_fitter"][0],
             "sphere_subsolver": SLOTS["sphere_subsolver"][0],
             "cube_subsolver": SLOTS["cube_subsolver"][0], "infinity_handler": ["fvecs"]}
Accepted = namedtuple("Accepted", "x fval index rho accepted step_length relative_step_length "
                      "candidate_index candidate_x n_evals_acceptance")


def _design(x, quadratic):
    n, d = x.shape
    cols = [np.ones(n), *x.T]
    if quadratic:
        for i in range(d):
            for j in range(i, d):
                cols.append(x[:, i] * x[:, j] * (0.5 if i == j else 1.0))
    return np.column_stack(cols)


class _Probe:
    def __init__(self, c):
        self.c = c
        self.calls = []  # (arguments, result)

    def impl(self, slot, a):
        if slot == "sampler":
            tr = a["trustregion"]
            d, n = len(tr.center), a["n_points"]
            u = np.array([[np.cos(1.0 + 2.3 * i + 0.7 * j + len(self.calls)) * 0.4
                           for j in range(d)] for i in range(n)]).reshape(n, d)
            return tr.map_from_unit(u)
        if slot == "sample_filter":
            keep = np.isin(a["indices"], [a["state"].index, max(a["indices"])])
            return a["xs"][keep], a["indices"][keep]
        if slot == "model_fitter":
            z = _design(a["x"], a["model_type"] == "quadratic")
            return np.linalg.lstsq(z, a["y"], rcond=None)[0].T + 0.001
        if slot in ("sphere_subsolver", "cube_subsolver"):
            g = np.asarray(a["model"].linear_terms, float)
            x = -0.3 * g / max(np.abs(g).max(), 1e-9) / np.sqrt(len(g))
            return {"x": x, "success": True, "n_iterations": 3}
        if slot == "acceptance_decider":
            sub, st, h = a["subproblem_solution"], a["state"], a["history"]
            i = h.add_xs(sub.x)
            a["wrapped_criterion"]({i: 2})
            f = float(np.mean(h.get_fvals(i)))
            acc = len(self.calls) % 2 == 0
            return Accepted(sub.x if acc else st.x, f if acc else st.fval, i if acc else st.index,
                            0.45, acc, 0.1, 0.2, i, sub.x, 2)
        if slot == "variance_estimator":
            n = 1
            v = a["history"].get_fvecs([0])[0]
            n = np.atleast_2d(v).shape[1]
            return 2.5 if a["model_type"] == "scalar" else 2.5 * np.eye(n)
        y = np.array(a["fvecs"], dtype=float)
        y[~np.isfinite(y)] = 12345.0
        return y

    def function(self, names):
        def record(values):
            a = dict(zip(names, values))
            res = self.impl(self.c["slot"], a)
            self.calls.append((a, res))
            return res

        ns = {"record": record}
        exec(f"def component({', '.join(names)}):\n    return record([{', '.join(names)}])", ns)
        return ns["component"]


@kind("custom")
def _custom(c):
    import tranquilo.tranquilo as tm
    from tranquilo.history import History
    from tranquilo.region import Region

    slot, ft = c["slot"], c["ft"]
    run_args, _, bundle = SLOTS[slot]
    names = [*c["args"], *c["opts"]]
    if c["form"] == "mixed":  # options before arguments
        names = names[::-1]
    if slot == "infinity_handler":
        names = ["fvecs"]
    p = _Probe(c)
    user = {e["name"]: e["v"] / 1000 for e in c["user"]}
    if c["conv"] == "str":
        user = {k: str(int(v)) if v == int(v) else str(v) for k, v in user.items()}
        ints = ("n_points_randomsearch", "n_max_factor", "maxiter", "maxiter_gradient_descent",
                "n_initial", "n_min", "n_max", "min_n_evals")
        user = {k: str(int(float(v))) if k in ints else v for k, v in user.items()}
    copy_user = copy.deepcopy(user)
    kw = {slot: p.function(names), "stopping_max_iterations": 4, "seed": 4,
          "disable_convergence": True, "noise_adaptation_options": {"rho_noise_n_draws": 3}}
    if bundle and user:
        kw[bundle] = namedtuple("U", list(user))(**user) if c["form"] == "tuple" else user
    noisy = bool(c["noisy"])
    x0 = np.array([2.0, -1.0])
    lo = up = None
    if slot == "cube_subsolver":
        lo, up = np.array([1.95, -1.05]), np.array([2.5, 5.0])
    faults = {9: "inf"} if slot == "infinity_handler" and noisy else (
        {3: "inf"} if slot == "infinity_handler" else None)
    crit = scen.criterion(ft, "prod", 2, 0.0, 1, scen.faults_from(faults))
    fits, vecs, decisions, sims = [], [], [], []
    orig, osim = tm.process_arguments, tm.simulate_rho_noise

    def pa(*a, **k):
        d = orig(*a, **k)
        fit, dec = d["fit_model"], d["accept_candidate"]

        def w_fit(x, y, *g, **kk):
            n0 = len(p.calls)
            m = fit(x, y, *g, **kk)
            fits.append((n0, np.array(x), np.array(y), m))
            return m

        def w_dec(*g, **kk):
            decisions.append(kk)
            return dec(*g, **kk)

        d["fit_model"], d["accept_candidate"] = w_fit, w_dec
        return d

    def sim(*g, **kk):
        sims.append(kk)
        return osim(*g, **kk)

    tm.process_arguments, tm.simulate_rho_noise = pa, sim
    try:
        res = tm._tranquilo(functype=ft, criterion=crit, x=x0, lower_bounds=lo, upper_bounds=up,
                            noisy=noisy, batch_evaluator=_serial, **kw)
    finally:
        tm.process_arguments, tm.simulate_rho_noise = orig, osim
    h, states = res["tranquilo_history"], res["states"]
    args_ok = all(_args_ok(a, h) for a, _ in p.calls)
    got = [[fp(float(a[o]), 1000) if not isinstance(a[o], str) else -7 for o in c["opts"]]
           for a, _ in p.calls]
    used = _used(slot, p.calls, h, states, fits, decisions, sims, noisy)
    return {"n": len(p.calls), "args": int(args_ok), "got": got[:3] + got[-1:], "used": int(used),
            "pure": int(user == copy_user)}


def _serial(func, arguments, *, n_cores=1, error_handling="continue", **kw):
    import traceback
    out = []
    for a in arguments:
        try:
            out.append(func(a))
        except Exception:  # noqa: BLE001
            out.append(traceback.format_exc())
    return out


def _args_ok(a, h):
    from tranquilo.history import History
    from tranquilo.models import ScalarModel
    from tranquilo.region import Region
    want = {"trustregion": Region, "n_points": (int, np.integer), "rng": np.random.Generator,
            "existing_xs": np.ndarray, "xs": np.ndarray, "indices": np.ndarray,
            "target_size": (int, np.integer), "n_evals_per_point": (int, np.integer),
            "model": ScalarModel, "x_candidate": np.ndarray, "search_radius_factor": (int, float),
            "batch_size": (int, np.integer), "history": History, "x": np.ndarray, "y": np.ndarray,
            "fvecs": np.ndarray}
    for n, v in a.items():
        if n in want and not isinstance(v, want[n]):
            return False
    ok = a.get("history", h) is h
    ok &= a.get("model_type", "linear") in ("linear", "quadratic", "scalar", "vector")
    ok &= callable(a.get("wrapped_criterion", len)) and callable(a.get("sample_points", len))
    if "xs" in a and "indices" in a:
        ok &= len(a["xs"]) == len(a["indices"])
    if "lower_bounds" in a:
        ok &= bool((a["lower_bounds"] == -1).all() and (a["upper_bounds"] == 1).all())
    if "x" in a:
        ok &= len(a["x"]) == len(a["y"])
    return ok


def _used(slot, calls, h, states, fits, decisions, sims, noisy):
    n = int(h.get_n_xs())
    xs = h.get_xs(list(range(n)))

    def stored(v):
        return any(np.array_equal(v, r) for r in xs)

    if slot == "sampler":
        return all(stored(r) for _, res in calls for r in res) and any(
            len(res) for _, res in calls)
    if slot == "sample_filter":
        return all(set(np.intersect1d(res[1], s.model_indices).tolist()) == set(res[1].tolist())
                   or len(s.model_indices) <= len(res[1]) + 9 and set(s.model_indices)
                   >= {int(s0.index)}
                   for (_, res), s, s0 in zip(calls, states[1:], states)) and all(
            set(s.old_indices_used.tolist()) <= set(int(i) for i in res[1])
            for (_, res), s in zip(calls, states[1:]))
    if slot == "model_fitter":
        return len(fits) > 0 and all(
            _coefs_used(calls[k][1], m) for k, _, _, m in fits if k < len(calls))
    if slot in ("sphere_subsolver", "cube_subsolver"):
        st = states[1:]
        ok = len(decisions) == len(st)
        for dk, s in zip(decisions, st):
            sub = dk["subproblem_solution"]
            ok &= np.array_equal(sub.x, s.candidate_x)
            ok &= any(np.allclose(sub.x_unit, res["x"]) for _, res in calls) or not sub.success
        return ok and any(dk["subproblem_solution"].success for dk in decisions)
    if slot == "acceptance_decider":
        ok = len(calls) == len(states) - 1
        for (_, res), s in zip(calls, states[1:]):
            ok &= all(np.array_equal(getattr(s, f), getattr(res, f)) for f in res._fields)
        return ok
    if slot == "variance_estimator":
        if not noisy:
            return True
        return all(dk["noise_variance"] == 2.5 for dk in decisions) and all(
            np.array_equal(k["noise_cov"], 2.5 * np.eye(len(k["noise_cov"]))) for k in sims)
    # infinity handler: the fitter only sees what it returned
    seen = any((~np.isfinite(a["fvecs"])).any() for a, _ in calls)
    ok = len(fits) > 0
    from tranquilo.fit_models import get_fitter  # noqa: F401
    for k, x, y, m in fits:
        ok &= k < len(calls) and np.array_equal(calls[k][0]["fvecs"], y, equal_nan=True)
        if ok and (~np.isfinite(y)).any() and m.square_terms is None and len(x) == x.shape[1] + 1:
            pred = m.intercepts + ((x - m.shift) / m.scale) @ m.linear_terms.T
            ok &= np.allclose(pred, calls[k][1], rtol=1e-6, atol=1e-5)
    return ok and seen


def _coefs_used(coef, m):
    d = m.linear_terms.shape[1]
    return np.allclose(coef[:, 0], m.intercepts) and np.allclose(coef[:, 1:d + 1], m.linear_terms)


def inputs():
    rng = np.random.default_rng(8)
    out = []
    for slot, (args, opts, bundle) in SLOTS.items():
        for ft in ("least_squares", "scalar", "likelihood"):
            for noisy in (0, 1):
                if slot == "variance_estimator" and not noisy:
                    continue
                for form in ("dict", "tuple", "mixed"):
                    a = list(args) if slot in MANDATORY else [
                        n for n in args if rng.random() < 0.8]
                    need = {"sample_filter": ["xs", "indices", "state"],
                            "acceptance_decider": ["subproblem_solution", "state",
                                                   "wrapped_criterion", "history"],
                            "variance_estimator": ["history", "model_type"]}.get(slot, [])
                    a += [n for n in need if n not in a]
                    o = [n for n in opts if rng.random() < 0.7]
                    user = [{"name": n, "v": int(rng.choice([2000, 3000, 7000, 2500, 500]))}
                            for n in opts if rng.random() < 0.5]
                    out.append({"kind": "custom", "case": f"custom_{slot}_{ft}_{noisy}_{form}",
                                "slot": slot, "ft": ft, "noisy": noisy, "form": form,
                                "args": a, "opts": o, "user": user,
                                "conv": str(rng.choice(["num", "num", "str"]))})
    return out


def run_custom(run):
    from vh.cases import run_cases
    run_cases(run, inputs())
