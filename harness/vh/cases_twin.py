"""Pairs of runs that must agree (C14)."""
import copy
import json
import os
import random
import subprocess
import sys
import threading
import time
import warnings

import numpy as np

from vh import scen
from vh.cases import kind
from vh.env import ROOT


def _point_noise(x, k, amp):
    """Noise that depends on the point and on the number of the evaluation there."""
    return np.random.default_rng([int(v) for v in np.frombuffer(x.tobytes(), np.uint32)] + [k])


class Criterion:
    """Deterministic; noise and failures are functions of the point."""

    def __init__(self, ft, problem, dim, x0, noise, faults):
        self.base = scen._problem(problem, dim)
        self.ft, self.noise, self.faults = ft, noise, faults
        self.x0 = np.array(x0, float).tobytes()
        self.count = {}
        self.lock = threading.Lock()

    def __call__(self, x):
        x = np.array(x, dtype=float) + 0.0
        key = x.tobytes()
        with self.lock:
            k = self.count[key] = self.count.get(key, 0) + 1
        v = np.asarray(self.base(x), dtype=float)
        if self.noise:
            v = v + np.round(_point_noise(x, k, 1).normal(size=v.shape) * self.noise)
        if self.faults and key != self.x0:
            h = sum(key) % 11
            if h == 3:
                raise ValueError("fault")
            if h == 5:
                v[0] = np.nan
            if h == 7:
                v[-1] = np.inf
        if self.ft == "scalar":
            return float((v**2).sum())
        return v**2 / 8 if self.ft == "likelihood" else v

    def __getstate__(self):
        d = dict(self.__dict__)
        d["lock"] = None
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.lock = threading.Lock()


def _evaluator(mode, log, seed):
    r = np.random.default_rng(seed)

    def run(func, arguments, *, n_cores=1, error_handling="continue", **kw):
        import traceback
        args = list(arguments)
        log["batches"].append([np.array(a, float).tobytes().hex() for a in args])
        log["nw"].append(int(n_cores))
        res = [None] * len(args)

        def one(j):
            try:
                res[j] = func(args[j])
            except Exception:  # noqa: BLE001
                res[j] = traceback.format_exc()

        if mode == "threads":
            def delayed(j, d):
                time.sleep(d)
                one(j)
            ts = [threading.Thread(target=delayed, args=(j, float(r.random()) * 0.002))
                  for j in range(len(args))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        else:
            order = list(range(len(args)))
            if mode == "reversed":
                order.reverse()
            elif mode == "shuffled":
                order = list(r.permutation(order))
            for j in order:
                one(j)
        return res

    return run


def _hex(a):
    return "-" if a is None else (np.asarray(a, dtype=float) + 0.0).tobytes().hex()


def _same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def observe(sc, mode="plain", args=None, n_cores=None, joblib=False):
    """One run; everything that is seen is returned as text."""
    import tranquilo.tranquilo as tm

    dim = sc["dim"]
    if args is None:
        args = arguments(sc)
    x0, lo, up, kw = args
    crit = Criterion(sc["functype"], sc["problem"], dim, np.array(scen.X0[sc["x0"]][:dim]),
                     sc["noise"], sc["faults"])
    log = {"batches": [], "nw": []}
    call = dict(kw)
    if n_cores is not None:
        call["n_cores"] = n_cores
    call["batch_evaluator"] = "joblib" if joblib else _evaluator(mode, log, 3)
    before = copy.deepcopy((x0, lo, up, kw))
    st, pst = np.random.get_state(), random.getstate()
    out = {"err": "-", "hist": [], "vals": [], "states": [], "res": [], "gen": []}
    gens = {}
    orig = tm.process_arguments

    def pa(*a, **k):
        p = orig(*a, **k)
        gens.update({n: g for n, g in p.items() if isinstance(g, np.random.Generator)})
        return p

    tm.process_arguments = pa
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = tm._tranquilo(functype=sc["functype"], criterion=crit, x=x0, lower_bounds=lo,
                                upper_bounds=up, **call)
    except Exception as e:  # noqa: BLE001
        out["err"] = type(e).__name__
        res = None
    finally:
        tm.process_arguments = orig
    now = np.random.get_state()
    out["rng"] = int(st[0] == now[0] and np.array_equal(st[1], now[1]) and st[2:] == now[2:]
                     and random.getstate() == pst)
    out["pure"] = int(_same(list(before[:3]), list((x0, lo, up))) if False else
                      all(_same(a, b) for a, b in zip(before, (x0, lo, up, kw))))
    out.update(log)
    out["gen"] = [json.dumps(g.bit_generator.state, sort_keys=True, default=str)
                  for _, g in sorted(gens.items())]
    if joblib:
        out["batches"] = []
    if res is not None:
        h = res["tranquilo_history"]
        n = int(h.get_n_xs())
        every = list(range(n))
        out["hist"] = [_hex(v) for v in h.get_xs(every)]
        vec = h.get_fvecs(every)
        out["vals"] = [[_hex(v) for v in vec[i]] for i in every]
        for s in res["states"]:
            out["states"].append([
                _hex(s.index), _hex(s.x), _hex(s.fval), _hex(s.rho), _hex(s.accepted),
                _hex(s.trustregion.radius), _hex(s.trustregion.center), _hex(s.candidate_index),
                _hex(s.candidate_x), _hex(s.model_indices), _hex(s.step_length),
                _hex(s.model.linear_terms), _hex(s.model.square_terms), _hex(s.model.intercept),
                _hex(s.n_evals_per_point), _hex(s.n_evals_acceptance),
            ])
        out["res"] = [_hex(res["solution_x"]), _hex(res["solution_criterion"]),
                      str(res["message"])]
    return out


def arguments(sc):
    dim = sc["dim"]
    x0 = np.array(scen.X0[sc["x0"]][:dim])
    lo, up = scen.bounds(sc["bound"], x0, dim)
    kw = copy.deepcopy(sc["kwargs"])
    if sc["noise"]:
        kw.setdefault("noisy", True)
    return x0, lo, up, kw


OTHERS = [
    scen.scenario("o1", "scalar", "prod", 2, "b", stopping_max_iterations=3, seed=3),
    scen.scenario("o2", "least_squares", "rosen", 3, "a", "both", stopping_max_iterations=3,
                  batch_size=4, acceptance_decider="classic_line_search"),
    scen.scenario("o3", "least_squares", "prod", 2, "a", noise=2.0, stopping_max_iterations=2,
                  noise_adaptation_options={"rho_noise_n_draws": 4}),
    scen.scenario("o4", "likelihood", "smooth", 2, "a", stopping_max_iterations=2,
                  model_fitter="lasso"),  # fails
]


def _codes(a, b):
    table = {"-": 0}

    def enc(o):
        if isinstance(o, str):
            return table.setdefault(o, len(table))
        if isinstance(o, list):
            return [enc(v) for v in o]
        if isinstance(o, dict):
            return {k: enc(v) for k, v in o.items()}
        return o

    return enc(a), enc(b)


@kind("twin")
def _twin(c):
    sc = c.pop("sc")
    dis = c["dis"]
    args = arguments(sc)
    cores = None
    if dis == "cores":
        cores = 1
    joblib = dis in ("joblib", "joblib2")
    a = observe(sc, args=args, n_cores=cores)
    mode, second, jl = "plain", args, False
    if dis == "seeds":
        np.random.seed(991)
        np.random.normal(size=3)  # a pending normal variate is part of the state
        random.seed(5)
    elif dis == "others":
        for o in OTHERS:
            observe(o)
        # the same option objects are used by a run of another problem
        oth = copy.copy(sc)
        oth = {**sc, "problem": "lin", "noise": 0.0}
        kw = dict(args[3])
        kw.pop("noisy", None)
        observe(oth, args=(args[0], args[1], args[2], kw))
    elif dis == "same_seed":
        oth = {**sc, "kwargs": {**sc["kwargs"], "stopping_max_iterations": 2}}
        observe(oth)
    elif dis in ("reversed", "shuffled", "threads"):
        mode = dis
    elif dis == "cores":
        cores = int(args[3].get("batch_size", 1))
        mode = "shuffled"
    elif joblib:
        jl = True
        cores = 2 if dis == "joblib2" and args[3].get("batch_size", 1) > 1 else None
    elif dis == "fresh":
        second = arguments(sc)
    if dis == "process":
        b = _subprocess(sc)
    else:
        b = observe(sc, mode, second, cores, jl)
    a, b = _codes(a, b)
    return {"a": a, "b": b}


def _subprocess(sc):
    env = {**os.environ, "PYTHONHASHSEED": str(1 + len(sc["name"])),
           "PYTHONPATH": str(ROOT / "harness")}
    p = subprocess.run([sys.executable, "-m", "vh.cases_twin"], input=json.dumps(sc), text=True,
                       capture_output=True, env=env, timeout=80)
    return json.loads(p.stdout)


DIS = ["again", "seeds", "others", "same_seed", "reversed", "shuffled", "threads", "cores",
       "fresh"]


def rnd_twin(rng, k, dis=None):
    sc = scen.random_family(1, int(rng.integers(10**6)), n_iter=6)[0]
    dis = dis or DIS[k % len(DIS)]
    kw = sc["kwargs"]
    kw.pop("stopping_max_time", None)
    noise = sc["noise"]
    faults = int(rng.random() < 0.25 and not noise)
    if dis in ("reversed", "shuffled", "threads", "cores", "joblib", "joblib2"):
        noise = 0.0 if dis != "reversed" else noise
        if dis == "reversed" and noise:
            dis = "again"
        if dis in ("cores", "joblib2"):
            kw["batch_size"] = int(rng.integers(2, 7))
            kw["n_cores"] = 1
            kw.setdefault("acceptance_decider", str(rng.choice(["classic", "classic_line_search"])))
    if rng.random() < 0.1:
        kw["model_fitter"], kw["residualize"] = "tranquilo", True
    return {"kind": "twin", "case": f"twin_{dis}_{k}", "dis": dis,
            "sc": {**sc, "noise": noise, "faults": faults, "opts": {}}}


def run_processes(run):
    """Runs in a new process and with the standard evaluators."""
    from vh.cases import run_cases
    from vh.env import SEED, THOROUGH
    n = 160 if THOROUGH else 16
    ins = []
    for k in range(n):
        d = ["process", "joblib", "process", "joblib2"][k % 4]
        ins.append(rnd_twin(np.random.default_rng([SEED, 79, k]), k, d))
    run_cases(run, ins)


if __name__ == "__main__":
    from vh.env import import_tranquilo

    import_tranquilo()
    print(json.dumps(observe(json.loads(sys.stdin.read()))))
