"""Scenarios: real runs of the optimizer that are recorded and validated."""
import math
import time

import numpy as np

from vh import rec as recmod

INF = np.inf


# ------------------------------------------------------------------ criteria
def _problem(name, dim):
    """Vector valued, integer valued functions (exact arithmetic)."""
    t = np.array([1.0, -0.5, 0.25, 2.0, -1.0])[:dim]

    def lin(x):
        return np.round(8 * np.concatenate([x - t, [x.sum() - 1]]))

    def prod(x):
        y = np.roll(x, 1)
        return np.round(8 * np.concatenate([x - t, x * y - 2 * t]))

    def rosen(x):
        a = 10 * (x[1:] - x[:-1] ** 2) if dim > 1 else np.array([3 * x[0]])
        return np.concatenate([a, 1 - x])

    def smooth(x):
        return np.concatenate([np.exp(0.3 * x) - 1.2, x - t])

    def flat(x):
        return np.full(dim + 1, 3.0)

    def kink(x):
        return np.concatenate([np.floor(2 * np.abs(x - t)), [1.0]])

    def linear(x):
        return np.concatenate([np.arange(1, dim + 1) * x + 20])

    return locals()[name]


def criterion(functype, problem, dim, noise=0.0, seed=0, faults=None):
    """faults: function of the number of the call, returns None or a kind of fault."""
    base = _problem(problem, dim)
    rng = np.random.default_rng(seed)
    count = {"n": 0}

    def crit(x):
        n = count["n"]
        count["n"] += 1
        v = np.asarray(base(np.asarray(x, dtype=float)), dtype=float)
        if noise:
            v = v + np.round(noise * rng.normal(size=v.shape))
        if functype == "likelihood":
            v = -(v**2) / 8 * -1.0
        kind = faults(n) if faults else None
        if functype == "scalar":
            out = float((v**2).sum()) if problem != "linear" else float(v.sum())
            if kind == "exc":
                raise ValueError("fault")
            if kind in ("nan", "inf", "neginf"):
                return {"nan": math.nan, "inf": INF, "neginf": -INF}[kind]
            return out
        if kind == "exc":
            raise ValueError("fault")
        if kind == "nan":
            v[0] = math.nan
        elif kind == "inf":
            v[-1] = INF
        elif kind == "nanall":
            v[:] = math.nan
        elif kind == "neginf":
            v[-1] = -INF
        return v

    return crit


def bounds(mode, x0, dim):
    lo = up = None
    if mode in ("both", "wide", "tight", "at_lower", "at_upper"):
        w = {"both": 0.7, "wide": 50.0, "tight": 0.03, "at_lower": 1.0, "at_upper": 1.0}[mode]
        lo, up = x0 - w * np.linspace(0.5, 1, dim), x0 + w * np.linspace(1, 0.6, dim)
        if mode == "at_lower":
            lo = lo.copy()
            lo[0] = x0[0]
        if mode == "at_upper":
            up = up.copy()
            up[-1] = x0[-1]
    elif mode == "lower":
        lo = x0 - 0.4 * np.linspace(0.5, 1, dim)
    elif mode == "upper":
        up = x0 + 0.4 * np.linspace(0.5, 1, dim)
    elif mode == "lower_inf":  # one finite entry only
        lo = np.full(dim, -INF)
        lo[0] = x0[0] - 0.1
        up = np.full(dim, INF)
    elif mode == "corner":
        lo, up = x0.copy(), x0 + 1.0
    return lo, up


def faults_from(pattern):
    """pattern: dict call number -> kind, or ("every", k, kind), or ("random", p, seed)."""
    if pattern is None:
        return None
    if isinstance(pattern, dict):
        p = {int(k): v for k, v in pattern.items()}
        return p.get
    if pattern[0] == "every":
        _, k, kind = pattern
        return lambda n: kind if n > 0 and n % k == 0 else None
    if pattern[0] == "from":
        _, k, kind = pattern
        return lambda n: kind if n >= k else None
    if pattern[0] == "random":
        _, p, seed, kinds = pattern[:4]
        rng = np.random.default_rng(seed)
        table = {}

        def f(n):
            if n < (pattern[4] if len(pattern) > 4 else 1):
                return None
            if n not in table:
                table[n] = kinds[rng.integers(len(kinds))] if rng.random() < p else None
            return table[n]

        return f
    raise ValueError(pattern)


X0 = {
    "a": [0.3, 0.6, -0.4, 1.1, 0.2],
    "b": [2.0, -1.0, 0.5, 0.0, 1.5],
    "zero": [0.0, 0.0, 0.0, 0.0, 0.0],
    "far": [10.0, 8.0, -6.0, 4.0, 9.0],
}


def scenario(name, functype="least_squares", problem="prod", dim=2, x0="a", bound=None,
             noise=0.0, faults=None, opts=None, **kwargs):
    return {"name": name, "functype": functype, "problem": problem, "dim": dim, "x0": x0,
            "bound": bound, "noise": noise, "faults": faults, "opts": opts or {},
            "kwargs": kwargs}


def problem_of(sc):
    """Criterion, start vector and bounds of a scenario."""
    dim = sc["dim"]
    x0 = np.array(X0[sc["x0"]][:dim]) if isinstance(sc["x0"], str) else np.array(sc["x0"], float)
    lo, up = bounds(sc["bound"], x0, dim)
    crit = criterion(sc["functype"], sc["problem"], dim, sc["noise"], sum(map(ord, sc["name"])),
                     faults_from(sc["faults"]))
    return crit, x0, lo, up


def execute(sc):
    """Run a scenario, returns (trace, info)."""
    crit, x0, lo, up = problem_of(sc)
    kw = dict(sc["kwargs"])
    kw.setdefault("stopping_max_iterations", 12)
    if sc["noise"]:
        kw.setdefault("noisy", True)
    opts = dict(sc["opts"])
    if opts.pop("shuffle", False):
        r = np.random.default_rng(sum(map(ord, sc["name"])))
        opts["order"] = lambda order: list(r.permutation(order))
    if opts.pop("mutate", False):
        inner = crit

        def crit(x):
            out = inner(np.array(x))
            x[:] = 77.0
            return out
    sleep = opts.pop("sleep", 0)
    if sleep:
        quick = crit

        def crit(x):
            time.sleep(sleep)
            return quick(x)
    script = opts.pop("script", None)
    if script is not None:
        from vh.scripted import Script

        s = Script(script, sc["functype"], crit)
        crit = s.criterion
    trace, res, rec = recmod.run(sc["name"], sc["functype"], crit, x0, lo, up, kw, opts,
                                 prepare=None if script is None else s.prepare)
    kinds = {}
    for _, k in rec.raw:
        kinds[k] = kinds.get(k, 0) + 1
    info = {"crash": getattr(rec, "crash", None), "kinds": kinds,
            "message": None if res is None else res["message"],
            "n_iter": None if res is None else len(res["states"]) - 1,
            "n_events": len(trace["ev"]),
            "accepted": sum(1 for e in rec.events if e["e"] == "accept" and e["acc"]),
            "rejected": sum(1 for e in rec.events if e["e"] == "accept" and not e["acc"])}
    if script is not None:
        info["script"] = s.summary()
    return trace, info


# ------------------------------------------------------------------ families
def script_family():
    """Histories of acceptance outcomes, enumerated by TLC."""
    from vh.cases import generate

    out = []
    for k, c in enumerate(generate("script")):
        kw = {"acceptance_decider": "classic"}
        if c["batch"] > 1:
            kw = {"acceptance_decider": "classic_line_search", "batch_size": c["batch"]}
        if c["minimp"]:
            kw["acceptance_decider_options"] = {"min_improvement": 0.5}
        if c["rho"]:
            kw["radius_options"] = {"rho_decrease": 0.5, "rho_increase": 2.0}
        if c["ft"] == "scalar":
            kw["disable_convergence"] = True
        out.append(scenario(
            f"script_{k}_{''.join(c['out'])}", c["ft"], "prod", 2, "b",
            "both" if k % 3 == 0 else None, opts={"script": c["out"]},
            stopping_max_iterations=len(c["out"]) if c["batch"] == 1 else 2, **kw))
    return out


def base():
    """A broad set of configurations."""
    S = scenario
    out = [
        S("scalar", "scalar", "lin"),
        S("scalar_rosen", "scalar", "rosen", 3, "b"),
        S("scalar_bounds", "scalar", "prod", 2, bound="both"),
        S("scalar_batch", "scalar", "prod", 2, "b", batch_size=4, n_cores=2),
        S("scalar_powell", "scalar", "smooth", 2, model_fitter="powell"),
        S("scalar_ridge", "scalar", "prod", 2, model_fitter="ridge"),
        S("scalar_ols_big", "scalar", "rosen", 2, "b", sample_size=6),
        S("scalar_big_sample", "scalar", "prod", 2, "a", sample_size=9),
        S("scalar_tr", "scalar", "rosen", 2, "b", model_fitter="tranquilo", residualize=True),
        S("scalar_flat", "scalar", "flat", 2),
        S("ls", "least_squares", "prod"),
        S("ls_rosen", "least_squares", "rosen", 2, "b", stopping_max_iterations=25),
        S("ls3", "least_squares", "smooth", 3, "far"),
        S("ls4_bounds", "least_squares", "prod", 4, "a", bound="both"),
        S("ls1", "least_squares", "prod", 1, "b"),
        S("ls_lower", "least_squares", "prod", 2, "b", bound="lower"),
        S("ls_upper", "least_squares", "prod", 2, "b", bound="upper"),
        S("ls_onefinite", "least_squares", "rosen", 2, "b", bound="lower_inf"),
        S("ls_corner", "least_squares", "prod", 2, "b", bound="corner"),
        S("ls_at_lower", "least_squares", "prod", 3, "b", bound="at_lower"),
        S("ls_at_upper", "least_squares", "kink", 3, "a", bound="at_upper"),
        S("ls_tight", "least_squares", "prod", 2, "b", bound="tight"),
        S("ls_wide", "least_squares", "rosen", 2, "b", bound="wide"),
        S("ls_kink", "least_squares", "kink", 2, "far"),
        S("ls_flat", "least_squares", "flat", 2),
        S("ls_zero", "least_squares", "prod", 2, "zero"),
        S("ls_shuffle", "least_squares", "rosen", 2, "b", opts={"shuffle": True}, batch_size=4),
        S("ls_mutate", "least_squares", "prod", 2, "b", opts={"mutate": True}),
        S("ls_batch", "least_squares", "prod", 2, "b", batch_size=4),
        S("ls_batch_cores", "least_squares", "rosen", 3, "b", n_cores=3, batch_size=6),
        S("ls_line", "least_squares", "rosen", 2, "far", acceptance_decider="classic_line_search",
          batch_size=5),
        S("ls_line2", "least_squares", "prod", 2, "b", acceptance_decider="classic_line_search",
          batch_size=2, bound="both"),
        S("ls_line8", "least_squares", "prod", 3, "far", acceptance_decider="classic_line_search",
          batch_size=8, bound="upper"),
        S("ls_line1", "least_squares", "prod", 2, "b", acceptance_decider="classic_line_search"),
        S("ls_drop", "least_squares", "kink", 2, "b", sample_filter="drop_excess",
          sample_filter_options={"n_max_factor": 1}),
        S("ls_drop2", "least_squares", "rosen", 3, "b", sample_filter="drop_excess",
          sample_filter_options={"n_max_factor": 2}, search_radius_factor=12.0),
        S("ls_discard", "least_squares", "prod", 2, "b", sample_filter="discard_all"),
        S("ls_cluster", "least_squares", "prod", 2, "b", sample_filter="clustering"),
        S("ls_random_hull", "least_squares", "prod", 3, "b", sampler="random_hull"),
        S("ls_random_interior", "least_squares", "prod", 2, "b", sampler="random_interior"),
        S("ls_small_steps", "least_squares", "kink", 2, "far",
          stagnation_options={"min_relative_step": 0.9, "max_trials": 3}),
        S("ls_keep_steps", "least_squares", "kink", 2, "far",
          stagnation_options={"min_relative_step_keep": 0.95, "min_relative_step": 0.3}),
        S("ls_nodrop", "least_squares", "kink", 2, "b",
          stagnation_options={"min_relative_step": 0.9, "drop": False, "sample_increment": 2}),
        S("ls_radius", "least_squares", "rosen", 2, "b",
          radius_options={"rho_decrease": 0.2, "rho_increase": 0.7, "shrinking_factor": 0.25,
                          "expansion_factor": 3.0, "max_radius": 0.3, "min_radius": 0.01,
                          "initial_radius": 0.15}),
        S("ls_radius_cap", "least_squares", "rosen", 2, "b",
          radius_options={"max_radius_to_step_ratio": 2.0, "min_radius": 1e-3}),
        S("ls_minimp", "least_squares", "rosen", 2, "b",
          acceptance_decider_options={"min_improvement": 5.0}),
        S("ls_eval_limit", "least_squares", "rosen", 2, "b",
          stopping_max_criterion_evaluations=17),
        S("ls_eval_limit1", "least_squares", "rosen", 2, "b",
          stopping_max_criterion_evaluations=1),
        S("ls_iter_limit", "least_squares", "rosen", 2, "b", stopping_max_iterations=3),
        S("ls_iter0", "least_squares", "rosen", 2, "b", stopping_max_iterations=0),
        S("sc_iter0", "scalar", "prod", 2, "b", stopping_max_iterations=0, n_evals_at_start=3),
        S("ls_iter1", "least_squares", "rosen", 2, "b", stopping_max_iterations=1),
        S("ls_time", "least_squares", "rosen", 2, "b", stopping_max_time=0.0),
        S("ls_noconv", "least_squares", "kink", 2, "a", disable_convergence=True),
        S("ls_ftol", "least_squares", "smooth", 2, "b",
          convergence_relative_criterion_tolerance=0.2),
        S("ls_xtol", "least_squares", "smooth", 2, "b",
          convergence_absolute_params_tolerance=0.05),
        S("ls_gtol", "least_squares", "smooth", 2, "b",
          convergence_absolute_gradient_tolerance=3.0),
        S("lik", "likelihood", "smooth", 2, "b"),
        S("lik_bounds", "likelihood", "prod", 3, "b", bound="both"),
        S("ls_startreps", "least_squares", "prod", 2, "b", n_evals_at_start=3, batch_size=2),
        S("noisy", "least_squares", "prod", 2, "b", noise=3.0, stopping_max_iterations=7),
        S("noisy_bounds", "least_squares", "prod", 2, "b", bound="both", noise=3.0,
          stopping_max_iterations=6),
        S("noisy_reps", "least_squares", "prod", 2, "a", noise=6.0, stopping_max_iterations=7,
          noise_adaptation_options={"rho_noise_n_draws": 20, "max_n_evals": 4, "min_n_evals": 2}),
        S("noisy_line", "least_squares", "prod", 2, "a", noise=2.0, batch_size=4,
          acceptance_decider="classic_line_search", stopping_max_iterations=5,
          noise_adaptation_options={"rho_noise_n_draws": 10}),
        S("noisy_naive", "least_squares", "prod", 2, "a", noise=2.0,
          acceptance_decider="naive_noisy", stopping_max_iterations=5,
          noise_adaptation_options={"rho_noise_n_draws": 10}),
        S("faults_exc", "least_squares", "prod", 2, "b", faults=("every", 3, "exc")),
        S("faults_nan", "least_squares", "prod", 2, "b", faults=("every", 4, "nan")),
        S("faults_inf", "scalar", "prod", 2, "b", faults=("every", 3, "inf")),
    ]
    return out


def noisy_family():
    S = scenario
    na = dict(rho_noise_n_draws=12)
    out = []
    for k, (mn, mx) in enumerate([(1, 3), (2, 2), (1, 30), (3, 6)]):
        for noise in (1.0, 4.0, 25.0):
            out.append(S(f"noisy_{mn}_{mx}_{noise}", problem="prod", x0="b", noise=noise,
                         stopping_max_iterations=6, stopping_max_criterion_evaluations=400,
                         noise_adaptation_options={**na, "min_n_evals": mn, "max_n_evals": mx},
                         batch_size=[1, 1, 2, 3][k]))
    for k, o in enumerate([{"high_rho": 0.9, "min_share_high_rho": 0.5}, {"low_rho": 0.5},
                           {"good_rho_threshold": 10.0}, {"good_rho_threshold": -5.0},
                           {"min_share_high_rho": 0.0, "high_rho": 0.2}]):
        out.append(S(f"noisy_na_{k}", problem="prod", x0="a", noise=4.0,
                     stopping_max_iterations=7, stopping_max_criterion_evaluations=500,
                     noise_adaptation_options={**na, "max_n_evals": 6, **o}, n_evals_per_point=3))
    out += [
        S("noisy_scalar", "scalar", "prod", 2, "b", noise=2.0, stopping_max_iterations=4,
          noise_adaptation_options=na),
        S("noisy_lik", "likelihood", "prod", 2, "b", noise=2.0, stopping_max_iterations=4,
          noise_adaptation_options=na),
        S("noisy_resid", "least_squares", "prod", 2, "b", noise=2.0, residualize=True,
          stopping_max_iterations=5, noise_adaptation_options=na),
        S("noisy_acc", "least_squares", "prod", 2, "b", noise=5.0, stopping_max_iterations=5,
          acceptance_decider_options={"n_min": 2, "n_max": 7}, noise_adaptation_options=na),
        S("noisy_acc2", "least_squares", "prod", 2, "a", noise=50.0, stopping_max_iterations=5,
          acceptance_decider_options={"n_min": 6, "n_max": 9, "min_improvement": 1.0},
          noise_adaptation_options=na),
        S("noisy_drop", "least_squares", "kink", 2, "b", noise=2.0, stopping_max_iterations=5,
          stagnation_options={"min_relative_step_keep": 0.9, "min_relative_step": 0.8,
                              "drop": True, "max_trials": 2},
          noise_adaptation_options={**na, "min_n_evals": 2}),
        S("noisy_start2", "least_squares", "prod", 2, "b", noise=2.0, stopping_max_iterations=5,
          n_evals_at_start=2, batch_size=4, noise_adaptation_options=na),
    ]
    return out


def resid_family():
    """Residualised fits, with and without noise."""
    S = scenario
    out = []
    for k, (prob, dim, x0) in enumerate([("prod", 2, "b"), ("kink", 2, "a"), ("lin", 3, "far"),
                                         ("prod", 3, "a")]):
        for fitter in ("ols", "ridge", "tranquilo"):
            out.append(S(f"resid_{k}_{fitter}", "least_squares", prob, dim, x0, residualize=True,
                         model_fitter=fitter, batch_size=1 + k % 2))
            out.append(S(f"resid_noisy_{k}_{fitter}", "least_squares", prob, dim, x0, noise=3.0,
                         residualize=True, model_fitter=fitter, stopping_max_iterations=5,
                         noise_adaptation_options={"rho_noise_n_draws": 8, "max_n_evals": 4}))
        out.append(S(f"resid_scalar_{k}", "scalar", prob, dim, x0, residualize=True,
                     bound=[None, "both"][k % 2]))
        out.append(S(f"resid_noisy_scalar_{k}", "scalar", prob, dim, x0, noise=2.0,
                     residualize=True, stopping_max_iterations=4,
                     noise_adaptation_options={"rho_noise_n_draws": 6, "max_n_evals": 3}))
    return out


def fault_family(n_max=24, functypes=("least_squares", "scalar")):
    """Every kind of fault at every position of the first n_max evaluations."""
    out = []
    for ft in functypes:
        for kind in ("exc", "nan", "inf", "neginf"):
            for k in range(1, n_max):
                out.append(scenario(f"fault_{ft}_{kind}_{k}", ft, "prod", 2, "b",
                                    faults={k: kind}, stopping_max_iterations=5))
    for kind in ("exc", "nan", "inf", "nanall"):
        for k in range(1, n_max):
            out.append(scenario(f"fault_burst_{kind}_{k}", "least_squares", "prod", 2, "a",
                                faults={k + j: kind for j in range(4)}, batch_size=4,
                                stopping_max_iterations=4))
    for kind in ("exc", "inf", "neginf"):
        out.append(scenario(f"fault_all_{kind}", "least_squares", "prod", 2, "a",
                            faults=("from", 1, kind), stopping_max_iterations=6))
        out.append(scenario(f"fault_all_scalar_{kind}", "scalar", "prod", 2, "a",
                            faults=("from", 1, kind), stopping_max_iterations=6))
        for k in range(1, 10):
            out.append(scenario(f"fault_line_{kind}_{k}", "least_squares", "prod", 2, "a",
                                faults={k + 3: kind, k + 5: kind}, batch_size=5,
                                acceptance_decider="classic_line_search",
                                stopping_max_iterations=4))
            out.append(scenario(f"fault_lik_{kind}_{k}", "likelihood", "smooth", 2, "a",
                                faults={k: kind, k + 4: kind}, stopping_max_iterations=4))
    return out


def noisy_fault_family(n_max=40):
    """Noisy runs in which evaluations after the start fail."""
    out = []
    na = {"rho_noise_n_draws": 5, "max_n_evals": 3}
    for ft in ("least_squares", "likelihood", "scalar"):
        for kind in ("exc", "nan", "inf", "neginf"):
            for k in range(8, n_max, 4 if ft == "least_squares" else 9):
                out.append(scenario(f"nfault_{ft}_{kind}_{k}", ft, "prod", 2, "b", noise=3.0,
                                    faults={k: kind}, stopping_max_iterations=4,
                                    batch_size=1 + k % 3, noise_adaptation_options=na))
            for p in (0.1, 0.5):
                out.append(scenario(f"nfault_{ft}_{kind}_{p}", ft, "prod", 2, "a", noise=3.0,
                                    faults=("random", p, 3, (kind,), 8),
                                    stopping_max_iterations=4, noise_adaptation_options=na))
        out.append(scenario(f"nfault_{ft}_all", ft, "prod", 2, "a", noise=3.0,
                            faults=("from", 12, "exc"), stopping_max_iterations=4,
                            noise_adaptation_options=na))
        out.append(scenario(f"nfault_{ft}_mixed", ft, "prod", 2, "a", noise=3.0,
                            faults=("random", 0.3, 5, ("exc", "nan", "inf"), 8),
                            stopping_max_iterations=4, noise_adaptation_options=na))
    return out


def random_family(n, seed, n_iter=8, prefix="rnd", **fixed):
    """Random configurations; every choice is a function of the seed."""
    out = []
    for k in range(n):
        r = np.random.default_rng([seed, k])

        def pick(*a):
            return a[int(r.integers(len(a)))]

        ft = pick("scalar", "least_squares", "least_squares", "likelihood")
        dim = pick(1, 1, 2, 2, 2, 3, 3, 3, 4, 5)
        prob = pick("lin", "prod", "rosen", "smooth", "kink", "flat", "linear")
        kw = {"stopping_max_iterations": int(r.integers(k % 16 > 0, n_iter + 1)),
              "seed": int(r.integers(1000))}
        noise = 0.0
        if r.random() < 0.2 and ft != "scalar":
            noise = pick(1.0, 3.0, 10.0)
            prob = pick("lin", "prod", "kink", "flat")  # integers: means are exact
            kw["noise_adaptation_options"] = {"rho_noise_n_draws": 8,
                                              "max_n_evals": int(r.integers(2, 6)),
                                              "min_n_evals": int(r.integers(1, 3))}
            kw["stopping_max_iterations"] = min(kw["stopping_max_iterations"], 5)
        if r.random() < 0.35:
            kw["batch_size"] = int(r.integers(1, 7))
        if r.random() < 0.3:
            kw["n_cores"] = int(r.integers(1, kw.get("batch_size", 4) + 1))
        if r.random() < 0.3 and not noise:
            kw["acceptance_decider"] = pick("classic", "classic_line_search", "classic_line_search")
        if r.random() < 0.4:
            kw["sample_filter"] = pick("keep_all", "discard_all", "drop_excess", "clustering")
            if kw["sample_filter"] == "drop_excess":
                kw["sample_filter_options"] = {"n_max_factor": int(r.integers(1, 4))}
        if r.random() < 0.4:
            kw["sampler"] = pick("optimal_hull", "random_hull", "random_interior")
        if r.random() < 0.4:
            kw["model_fitter"] = pick("ols", "ridge", "tranquilo") if ft != "scalar" else pick(
                "ridge", "powell", "tranquilo")
        if r.random() < 0.2 and kw.get("model_fitter") != "powell":
            kw["residualize"] = bool(r.integers(2))
        if r.random() < 0.5:
            kw["radius_options"] = {
                "initial_radius": float(pick(0.05, 0.3, 1.0, 2.0)),
                "rho_decrease": float(pick(0.05, 0.1, 0.4)),
                "rho_increase": float(pick(0.4, 0.8, 0.5)),
                "shrinking_factor": float(pick(0.5, 0.3)),
                "expansion_factor": float(pick(2.0, 1.5)),
                "large_step": float(pick(0.5, 0.9, 0.1)),
                "min_radius": float(pick(1e-6, 0.05)), "max_radius": float(pick(1e6, 0.6, 3.0)),
            }
            o = kw["radius_options"]
            o["initial_radius"] = min(max(o["initial_radius"], o["min_radius"]), o["max_radius"])
            if r.random() < 0.2:
                o["max_radius_to_step_ratio"] = 2.0
        if r.random() < 0.4:
            kw["stagnation_options"] = {
                "min_relative_step_keep": float(pick(0.0, 0.3, 0.9)),
                "min_relative_step": float(pick(0.0, 0.05, 0.4, 0.9)),
                "drop": bool(r.integers(2)), "max_trials": int(r.integers(0, 4)),
                "sample_increment": int(r.integers(1, 3)),
            }
        if r.random() < 0.3:
            kw["search_radius_factor"] = float(pick(1.0, 2.0, 8.0, 1.5))
        if r.random() < 0.2:
            kw["sample_size"] = int(r.integers(dim + 1, dim + 5)) if ft != "scalar" else int(
                r.integers(2 * dim + 1, 2 * dim + 4))
        if r.random() < 0.2:
            kw["acceptance_decider_options"] = {"min_improvement": float(pick(0.0, 1.0, 4.0))}
        if r.random() < 0.3:
            kw["stopping_max_criterion_evaluations"] = int(r.integers(1, 60))
        if r.random() < 0.2:
            kw["disable_convergence"] = True
        for o in ("relative_criterion", "absolute_criterion", "relative_params",
                  "absolute_params", "relative_gradient", "absolute_gradient"):
            if r.random() < 0.08:
                kw[f"convergence_{o}_tolerance"] = float(pick(0.0, 0.01, 0.1))
        if r.random() < 0.2:
            kw["n_evals_at_start"] = int(r.integers(1, 5))
        faults = None
        if r.random() < 0.3:
            faults = ("random", float(pick(0.05, 0.2, 0.6)), k,
                      ("exc", "nan", "inf") if noise else ("exc", "nan", "inf", "neginf"),
                      8 if noise else 1)
            if kw.get("n_evals_at_start"):
                faults = None
        if noise and r.random() < 0.5:
            faults = None
        kw.update(fixed)
        out.append(scenario(
            f"{prefix}{seed}_{k}", ft, prob, dim, pick("a", "b", "far", "zero"),
            pick(None, None, "both", "lower", "upper", "tight", "corner", "at_lower",
                 "at_upper", "wide", "lower_inf"),
            noise, faults, {"shuffle": bool(r.random() < 0.2), "mutate": bool(r.random() < 0.1)},
            **kw))
    return out


def line_family(n, seed):
    """Random line search runs with proper batches."""
    out = []
    for k, sc in enumerate(random_family(2 * n, seed + 1000, prefix="line")):
        if sc["noise"]:
            continue
        b = 2 + k % 6
        sc["kwargs"].update(acceptance_decider="classic_line_search", batch_size=b,
                            n_cores=min(b, sc["kwargs"].get("n_cores") or 1))
        out.append(sc)
    return out[:n]


TOLERANCES = {
    "relative_criterion": (1e-3, 1.0), "absolute_criterion": (1e-1, 1e4),
    "relative_params": (0.03, 2.0), "absolute_params": (0.03, 8.0),
    "relative_gradient": (0.1, 1.0), "absolute_gradient": (1.0, 1e4),
}


def tolerance_family(n, seed):
    """Runs with long steps and one convergence test of the size of typical changes."""
    out = []
    names = sorted(TOLERANCES)
    for k, sc in enumerate(random_family(3 * n, seed + 2000, prefix="tol")):
        r = np.random.default_rng([seed, k, 7])
        if sc["noise"] or sc["faults"] or sc["problem"] == "flat" or sc["bound"] in ("tight", "corner"):
            continue
        kw = sc["kwargs"]
        kw.pop("disable_convergence", None)
        kw.pop("stopping_max_criterion_evaluations", None)
        for o in names:
            kw[f"convergence_{o}_tolerance"] = 0.0
        pick = "relative_params" if k % 3 == 0 else names[k % len(names)]
        lo, up = TOLERANCES[pick]
        kw[f"convergence_{pick}_tolerance"] = float(lo * (up / lo) ** r.random())
        kw["stopping_max_iterations"] = 10
        if "radius_options" not in kw or r.random() < 0.7:
            kw["radius_options"] = {"initial_radius": float(r.choice([0.3, 1.0, 3.0])),
                                    "max_radius": 10.0}
        sc["x0"] = str(r.choice(["b", "far", "a"]))
        out.append(sc)
    return out[:n]


def reuse_family(n):
    """Noisy runs in which points leave the sample and come back later."""
    out = []
    for k in range(n):
        kw = {}
        if k % 3 == 2:
            kw["batch_size"] = 1 + k % 4
        if k % 5 == 4:
            kw["residualize"] = True
        out.append(scenario(
            f"reuse_{k}", "likelihood" if k % 7 == 6 else "least_squares",
            ["prod", "kink", "lin"][k % 3], 2 + (k % 11 == 10), ["b", "far", "a"][k // 3 % 3],
            [None, None, "both", "wide"][k // 5 % 4], noise=[4.0, 25.0, 60.0][k // 9 % 3],
            stopping_max_iterations=10, stopping_max_criterion_evaluations=1500, seed=k,
            search_radius_factor=[1.0, 2.0][k % 2],
            radius_options={"initial_radius": [0.3, 1.0][k // 2 % 2], "shrinking_factor": 0.4,
                            "min_radius": 0.01},
            noise_adaptation_options={"rho_noise_n_draws": 8, "max_n_evals": 8},
            sample_filter=["keep_all", "drop_excess", "keep_all", "clustering", "discard_all"][k % 5],
            acceptance_decider_options={"n_min": 2, "n_max": 5}, **kw))
    return out


def waiting_family(n):
    """Criteria that take their time without computing, and a time limit."""
    return [scenario(f"wait_{k}", ["least_squares", "scalar", "likelihood"][k % 3],
                     "prod" if k % 5 == 4 else "rosen",
                     2 + k % 2, "b", noise=2.0 if k % 5 == 4 else 0.0,
                     opts={"sleep": [0.004, 0.02, 0.05][k % 3]},
                     stopping_max_time=[0.15, 0.05, 0.4, 0.25][k % 4], stopping_max_iterations=40,
                     disable_convergence=True, batch_size=[1, 4][k % 2],
                     **({"noise_adaptation_options": {"rho_noise_n_draws": 4}} if k % 5 == 4 else {}))
            for k in range(n)]
