"""Recording runs of the optimizer as traces of the specification."""
import functools
import inspect
import math
import time
import traceback
from fractions import Fraction

import numpy as np

from vh.numbers import BIG, N, encode, fp

MESSAGES = [
    ("relative gradient", 1), ("absolute gradient", 2),
    ("relative criterion", 3), ("absolute criterion", 4),
    ("relative params", 5), ("absolute params", 6),
    ("criterion evaluations", 10), ("maximum time", 11), ("time", 11),
]


def message_code(msg):
    if msg is None:
        return 0
    low = str(msg).lower()
    for text, code in MESSAGES:
        if text in low:
            return code
    return 99


def aggregate(functype, vec):
    vec = np.atleast_1d(np.asarray(vec, dtype=float))
    if functype == "scalar":
        return float(vec[0])
    with np.errstate(all="ignore"):
        return float((vec**2).sum()) if functype == "least_squares" else float(vec.sum())


class Recorder:
    def __init__(self, functype, user, lower=None, upper=None, criterion=None, opts=None):
        self.functype = functype
        self.user = user
        self.lower, self.upper = lower, upper
        self.opts = opts or {}
        self.events = []
        self.x_ids, self.xs = {}, []
        self.m_ids = {}
        self.vec_ids = {}
        self.pts = []  # per history index: x id
        self.vecs = []  # per history index: list of vectors
        self.vals = []  # per history index: list of aggregated values
        self.hist = None
        self.insim = False
        self.inaccept = False
        self.calls = []
        self.t_first = None
        self.data_idx = None
        self.cfg = None
        self.cur = None
        self.sim = {"olds": [], "rows": [], "regions": []}
        self.scalar_model = None
        self.instrumented = False
        self.noise, self.vscale = {}, 0.0
        self.raw = []  # (x id, kind) of every criterion call, in order
        self.seen_components = set()

    # ------------------------------------------------------------------ ids
    def xid(self, x):
        x = np.asarray(x, dtype=np.float64).reshape(-1) + 0.0
        k = x.tobytes()
        if k not in self.x_ids:
            self.xs.append(x.copy())
            self.x_ids[k] = len(self.xs)
        return self.x_ids[k]

    def mid(self, model):
        if model is None:
            return 0
        parts = [type(model).__name__]
        for f in ("intercepts", "intercept", "linear_terms", "square_terms", "shift", "scale"):
            v = getattr(model, f, None)
            parts.append(b"-" if v is None else (np.asarray(v, dtype=float) + 0.0).tobytes())
        k = tuple(parts)
        return self.m_ids.setdefault(k, len(self.m_ids) + 1)

    def vid(self, vec):
        v = np.atleast_1d(np.asarray(vec, dtype=float)) + 0.0
        return self.vec_ids.setdefault(v.tobytes(), len(self.vec_ids) + 1)

    def feasible(self, x):
        ok = bool(np.isfinite(x).all())
        if self.lower is not None:
            ok &= bool((x >= self.lower).all())
        if self.upper is not None:
            ok &= bool((x <= self.upper).all())
        return int(ok)

    def add(self, **ev):
        self.events.append(ev)

    def region(self, tr):
        return {"c": self.xid(tr.center), "r": N(tr.radius)}

    # ------------------------------------------------------------ evaluator
    def evaluator(self, func, arguments, *, n_cores=1, error_handling="continue", **kw):
        args = [np.array(a, dtype=float, copy=True) for a in arguments]
        ids = [self.xid(a) for a in args]
        if self.t_first is None:
            self.t_first = time.perf_counter()
        inner = self.opts.get("evaluator")
        if inner is not None:
            res = inner(func, arguments=list(arguments), n_cores=n_cores,
                        error_handling=error_handling, **kw)
        else:
            order = list(range(len(args)))
            perm = self.opts.get("order")
            if perm is not None:
                order = perm(order)
            res = [None] * len(args)
            for j in order:
                try:
                    res[j] = func(arguments[j])
                except Exception:
                    if error_handling != "continue":
                        raise
                    res[j] = traceback.format_exc()
        self.calls.append({
            "args": ids, "nc": int(n_cores), "n": len(ids),
            "res": [r if isinstance(r, str) else np.array(r, dtype=float, copy=True)
                    for r in res],
            "t": time.perf_counter() - self.t_first,
        })
        return res

    # ----------------------------------------------------------- instrument
    def instrument(self, out):
        out = dict(out)
        self.out0 = dict(out)
        self.instrumented = True
        self.hist = h = out["history"]
        wrap = {
            "evaluate_criterion": self.w_eval,
            "filter_points": self.w_filter,
            "sample_points": self.w_sample,
            "fit_model": self.w_fit,
            "aggregate_model": self.w_agg,
            "solve_subproblem": self.w_solve,
            "estimate_variance": self.w_var,
            "accept_candidate": self.w_accept,
        }
        for k, w in wrap.items():
            if k in out and callable(out[k]):
                f = out[k]
                try:
                    sig = list(inspect.signature(f).parameters)
                except (TypeError, ValueError):
                    sig = None
                out[k] = functools.partial(self._call, w, f, sig)
                self.seen_components.add(k)
        orig_add, orig_data = h.add_xs, h.get_model_data

        def add_xs(xs, *a, **k):
            before = np.array(xs, dtype=float, copy=True)
            res = orig_add(xs, *a, **k)
            self.note_add(before, res)
            return res

        def get_model_data(x_indices, *a, **k):
            if not self.insim:
                self.data_idx = [int(i) for i in np.atleast_1d(x_indices)]
            return orig_data(x_indices, *a, **k)

        try:
            h.add_xs, h.get_model_data = add_xs, get_model_data
        except AttributeError:
            pass
        n = int(h.get_n_xs())
        init = [self.xid(x) for x in h.get_xs(np.arange(n))]
        for i in init:
            self.pts.append(i)
            self.vecs.append([])
            self.vals.append([])
        self.initx = init
        self.x0 = self.xid(out["x"])
        self.cfg = self.make_cfg(out)
        tr = out["trustregion"]
        self.radius0 = float(tr.radius)
        self.cur = None
        return out

    @staticmethod
    def _call(w, f, sig, *a, **k):
        return w(f, sig, a, k)

    def note_add(self, xs, res):
        xs = np.atleast_2d(xs)
        if xs.size == 0:
            return
        idx = [int(i) for i in np.atleast_1d(res)]
        ids = [self.xid(x) for x in xs]
        for i in ids:
            self.pts.append(i)
            self.vecs.append([])
            self.vals.append([])
        self.add(e="add", idx=idx, x=ids)

    # -------------------------------------------------------------- wrappers
    def w_eval(self, f, sig, a, k):
        info = k.get("eval_info", a[0] if a else {})
        pairs = [{"i": int(i), "n": int(n)} for i, n in dict(info).items()]
        start = len(self.calls)
        f(*a, **k)
        calls = self.calls[start:]
        args = [x for c in calls for x in c["args"]]
        res = [r for c in calls for r in c["res"]]
        # attribute outcomes to points
        need = []
        for p in pairs:
            need += [p["i"]] * p["n"]
        pool = {}
        for i in need:
            if 0 <= i < len(self.pts):
                pool.setdefault(self.pts[i], []).append(i)
        good_shape = None
        for r in res:
            if not isinstance(r, str):
                good_shape = np.shape(r)
                break
        if good_shape is None:
            good_shape = next((np.shape(v) for vs in self.vecs for v in vs), ())
        for x, r in zip(args, res):
            if pool.get(x):
                i = pool[x].pop(0)
            else:
                continue
            kind = "ok"
            if isinstance(r, str):
                kind = "exc"
                shape = () if self.functype == "scalar" else good_shape
                r = np.full(shape, np.inf)
            elif not np.isfinite(r).all():
                kind = "inf"
            r = np.where(np.isnan(r), np.inf, r)
            self.raw.append((x, kind))
            self.vecs[i].append(np.atleast_1d(r).reshape(-1))
            self.vals[i].append(aggregate(self.functype, r))
        span = max([c["t"] for c in calls], default=0.0)
        self.add(e="eval", info=pairs, args=args, insim=int(self.insim),
                 calls=[{"nc": c["nc"], "n": c["n"]} for c in calls],
                 t=min(int(span * 1000), BIG))

    def bound(self, f, sig, a, k):
        kw = dict(zip(sig[: len(a)], a)) if sig else {}
        kw.update(k)
        return kw

    def w_filter(self, f, sig, a, k):
        self.insim = False
        kw = self.bound(f, sig, a, k)
        for name, arg in zip(["xs", "indices", "state"], a):
            kw.setdefault(name, arg)
        xs_in = np.array(kw["xs"], copy=True)
        idx_in = [int(i) for i in kw["indices"]]
        res = f(*a, **k)
        xs, idx = res
        state = kw["state"]
        tr = state.trustregion
        kept = [int(i) for i in np.atleast_1d(idx)]
        aligned = (
            len(np.atleast_2d(xs)) == len(kept) and len(xs_in) == len(idx_in)
            and all(self.xid(x) == self.px(i) for x, i in zip(np.atleast_2d(xs), kept))
            and all(self.xid(x) == self.px(i) for x, i in zip(xs_in, idx_in))
        )
        d = self.dists(tr)
        ro = self.ropt
        r = float(tr.radius)
        prev = getattr(self, "radius_expect", [])
        rN = N(r, snap=prev + [self.radius0])
        rv = float(rN.v) if isinstance(rN.v, Fraction) else r
        rs, re = rv * ro["shrink"], rv * ro["expand"]
        self.cur_radius = rv
        self.radius_expect = [rv, rs, re, ro["min"], ro["max"]]
        self.tr = tr
        self.add(e="filter", tr={"c": self.xid(tr.center), "r": rN, "rs": N(rs), "re": N(re)},
                 cand=idx_in, kept=kept, cur=int(state.index), d=d, aligned=int(aligned))
        return res

    def dists(self, tr):
        c = np.asarray(tr.center, dtype=float)
        return [fp(np.linalg.norm(self.xs[p - 1] - c) / tr.radius) for p in self.pts]

    def px(self, i):
        return self.pts[i] if 0 <= i < len(self.pts) else -1

    def rr(self, tr):
        """Region of a call relative to the region of the iteration."""
        r = float(tr.radius)
        return {"c": self.xid(tr.center), "r": N(r, snap=[getattr(self, "cur_radius", r)]),
                "ratio": fp(r / getattr(self, "cur_radius", r))}

    def w_sample(self, f, sig, a, k):
        kw = self.bound(f, sig, a, k)
        tr = kw.get("trustregion", a[0] if a else None)
        ex = kw.get("existing_xs")
        before = None if ex is None else np.array(ex, copy=True)
        ctr = np.array(tr.center, copy=True)
        res = f(*a, **k)
        pts = np.atleast_2d(np.asarray(res, dtype=float))
        pts = pts if pts.size else np.empty((0, len(ctr)))
        pure = np.array_equal(ctr, tr.center) and (
            before is None or np.array_equal(before, ex))
        from vh.geom import unit_norm
        self.add(e="sample", n=int(kw["n_points"]), x=[self.xid(x) for x in pts],
                 u=[fp(unit_norm(tr, x)) for x in pts], fin=int(np.isfinite(pts).all()),
                 ex=[] if ex is None else [self.xid(x) for x in np.atleast_2d(ex)],
                 pure=int(pure), tr=self.rr(tr))
        return res

    def w_fit(self, f, sig, a, k):
        kw = self.bound(f, sig, a, k)
        x = kw.get("x", kw.get("xs", a[0] if a else None))
        if self.insim:
            rows = sorted(self.xid(r) for r in np.array(x, dtype=float, copy=True))
            for key, v in (("olds", self.mid(kw.get("old_model"))), ("rows", rows),
                           ("regions", self.rr(kw["region"]))):
                if v not in self.sim[key]:
                    self.sim[key].append(v)
            return f(*a, **k)
        y = kw.get("y", a[1] if len(a) > 1 else None)
        x, y = np.array(x, dtype=float, copy=True), np.array(y, dtype=float, copy=True)
        res = f(*a, **k)
        rows = [self.xid(r) for r in x]
        match = []
        for xr, yr in zip(rows, y):
            ok = []
            for i, p in enumerate(self.pts):
                if p == xr and self.vecs[i]:
                    with np.errstate(all="ignore"):
                        m = np.mean(np.array(self.vecs[i]), axis=0)
                    if _close(m, yr):
                        ok.append(i)
            match.append(ok)
        idx = self.data_idx
        if idx is None or len(idx) != len(rows):
            idx, used = [], set()
            for r, mm in zip(rows, match):
                j = next((i for i in mm if i not in used), None)
                if j is None:
                    j = next((i for i, p in enumerate(self.pts) if p == r and i not in used), -1)
                used.add(j)
                idx.append(j)
        self.data_idx = None
        self.add(e="fit", idx=list(idx), rows=rows, match=match,
                 old=self.mid(kw.get("old_model")), new=self.mid(res),
                 tr=self.rr(kw["region"]), d=self.dists(self.tr))
        return res

    def w_agg(self, f, sig, a, k):
        res = f(*a, **k)
        if self.insim:
            return res
        vm = k.get("vector_model", a[0] if a else None)
        if not self.events or self.events[-1]["e"] == "eval" and len(self.events) == 1:
            return res  # model of the start value
        self.scalar_model = res
        self.add(e="agg", vec=self.mid(vm), new=self.mid(res))
        return res

    def w_solve(self, f, sig, a, k):
        res = f(*a, **k)
        kw = self.bound(f, sig, a, k)
        model = kw.get("model", a[0] if a else None)
        tr = kw.get("trustregion", a[1] if len(a) > 1 else None)
        if self.insim:
            reg = self.rr(tr)
            if reg not in self.sim["regions"]:
                self.sim["regions"].append(reg)
            return res
        from vh.geom import predict, to_unit, unit_norm
        x = np.asarray(res.x, dtype=float)
        ei = float(res.expected_improvement)
        exp = predict(model, to_unit(tr, np.asarray(tr.center, float))) - predict(model, to_unit(tr, x))
        scale = abs(float(model.intercept)) + np.abs(model.linear_terms).sum() + (
            0 if model.square_terms is None else np.abs(model.square_terms).sum())
        # without a finite model there is no step
        eiok = abs(ei - exp) <= 1e-7 * max(scale, 1e-300) if math.isfinite(scale) else (
            ei == 0 and np.array_equal(x, tr.center))
        curx = self.xs[self.cur["x"] - 1] if self.cur else self.xs[self.x0 - 1]
        rel = np.linalg.norm(x - curx) / tr.radius
        self.ei = ei
        self.add(e="solve", model=self.mid(model), x=self.xid(x), u=fp(unit_norm(tr, x)),
                 ei=2 if not math.isfinite(ei) else (1 if ei > 0 else (0 if ei == 0 else -1)),
                 eiok=int(eiok), rel=fp(rel), tr=self.rr(tr))
        return res

    def w_var(self, f, sig, a, k):
        """The estimate is the one the evaluations so far call for."""
        res = f(*a, **k)
        kw = self.bound(f, sig, a, k)
        tr, typ = kw["trustregion"], kw["model_type"]
        want = self.variance(tr, typ)
        got = np.array(res, dtype=float, copy=True)
        if want is None:
            ok = 0
        else:
            want = np.asarray(want, dtype=float)
            ok = 1 if got.size == want.size and np.allclose(
                got.reshape(-1), want.reshape(-1), rtol=1e-7,
                atol=1e-9 * max(1.0, self.vscale)) else -1
        self.noise[typ] = got
        self.add(e="var", tr=self.rr(tr), typ=typ, ok=ok)
        return res

    def variance(self, tr, typ):
        if self.user.get("variance_estimator", "classic") != "classic":
            return None
        o = self.user.get("variance_estimator_options") or {}
        o = o if isinstance(o, dict) else o._asdict()
        limit = float(o.get("max_distance_factor", 3.0))
        need = int(o.get("min_n_evals", 3))
        c = np.asarray(tr.center, dtype=float)
        groups, self.vscale = [], 0.0
        dim = len(self.vecs[0][0]) if self.vecs[0] else 1
        for i, p in enumerate(self.pts):
            if not self.vecs[i]:
                continue
            d = np.linalg.norm(self.xs[p - 1] - c) / tr.radius
            if abs(d - limit) <= 1e-6 * max(1.0, limit):
                return None
            if d > limit:
                continue
            if typ == "scalar":
                v = np.array([[w] for w in self.vals[i]], dtype=float)
            else:
                v = np.array(self.vecs[i], dtype=float)
            v = v[np.isfinite(v).all(axis=1)]
            if len(v):
                self.vscale = max(self.vscale, float(np.abs(v).max()) ** 2)
            groups.append(v)
        best = max([len(v) for v in groups], default=0)
        if best < 2:
            return 0.0 if typ == "scalar" else np.zeros((dim, dim))
        groups = [v for v in groups if len(v) >= max(2, min(best, need))]
        total = sum(len(v) for v in groups)
        out = 0
        for v in groups:
            e = v - v.mean(axis=0)
            out = out + len(v) / total * (e.T @ e) / (len(v) - 1)
        return out

    def vlink(self, typ, value):
        """Was a component handed the latest estimate of the noise?"""
        if not self.cfg["noisy"] or typ not in self.noise:
            return 0 if not self.cfg["noisy"] else -1
        if value is None:
            return -1
        v, w = self.noise[typ].reshape(-1), np.asarray(value, dtype=float).reshape(-1)
        return 1 if v.shape == w.shape and np.allclose(v, w, rtol=1e-9, atol=0) else -1

    def w_accept(self, f, sig, a, k):
        kw = self.bound(f, sig, a, k)
        sub = kw["subproblem_solution"]
        state = kw["state"]
        self.add(e="begin", x=self.xid(sub.x))
        base = len(self.pts)
        self.inaccept = True
        cur_before = self.cur or self.start_cur()
        res = f(*a, **k)
        self.inaccept = False
        trial = base if len(self.pts) > base else -1
        fin_t = trial >= 0 and bool(self.vals[trial])
        tval = self.mean(trial) if fin_t else math.nan
        cval = self.mean(cur_before["i"]) if self.cfg["decider"] == "noisy" else float(cur_before["f"])
        rho_exp = rho(cval, tval, float(sub.expected_improvement))
        tr = state.trustregion
        x_new, x_old = np.asarray(res.x, float), self.xs[cur_before["x"] - 1]
        step_exp = float(np.linalg.norm(x_new - x_old))
        step = N(res.step_length, snap=[step_exp])
        i = int(res.index)
        f_snap = [self.mean(i)] if 0 <= i < len(self.pts) and self.vals[i] else []
        fN = N(float(res.fval), snap=[cur_before["f"]] + f_snap)
        ratio = self.ropt["ratio"]
        sv = float(res.step_length)
        cap = sv * ratio if math.isfinite(ratio) else math.inf
        capN = N(cap, snap=self.radius_expect)
        self.radius_expect = self.radius_expect + [_back(capN, cap)]
        rel = sv / tr.radius
        border, nline = self.line_points(tr, cur_before, trial, base)
        new_cur = {"i": i, "x": self.xid(x_new), "f": _back(fN, float(res.fval))}
        t = self.conv_tests(cur_before, new_cur)
        self.add(e="accept", i=i, x=new_cur["x"], f=fN, acc=int(bool(res.accepted)),
                 rho=N(float(res.rho), snap=[rho_exp]), rhoExp=N(rho_exp), neginf=N(-math.inf),
                 ci=int(res.candidate_index), cx=self.xid(res.candidate_x),
                 step=step, stepExp=N(step_exp), rel=fp(rel), cap=capN,
                 relOut=fp(res.relative_step_length),
                 nacc=int(res.n_evals_acceptance) if res.n_evals_acceptance is not None else -1,
                 t=t, border=border, nline=nline,
                 vlink=self.vlink("scalar", kw.get("noise_variance")))
        self.cur = new_cur
        self.sim = {"olds": [], "rows": [], "regions": []}
        self.insim = True  # model calls until the next filter belong to the simulation
        return res

    def start_cur(self):
        return {"i": 0, "x": self.x0, "f": self.mean(0)}

    def mean(self, i, k=None):
        v = self.vals[i][:k]
        if not v:
            return math.nan
        if all(math.isfinite(x) for x in v):
            return float(sum((Fraction(x) for x in v), Fraction(0)) / len(v))
        with np.errstate(all="ignore"):
            m = float(np.mean(v))
        return math.inf if math.isnan(m) else m

    def line_points(self, tr, cur, trial, base):
        """Is the candidate on the border and how many line points were added."""
        batch = self.cfg["batch"]
        if self.cfg["decider"] != "line" or batch == 1 or trial < 0:
            return 0, 0
        cx = self.xs[self.pts[trial] - 1]
        x0 = self.xs[cur["x"] - 1]
        if tr.shape == "sphere":
            r = np.linalg.norm(cx - tr.center) / tr.radius
            border = 1 if r >= 0.9 + 1e-6 else (-1 if r <= 0.9 - 1e-6 else 0)
        else:
            lo, hi = tr.cube_bounds.lower, tr.cube_bounds.upper
            half = np.where(hi > lo, hi - lo, 1.0) / 2  # a fixed parameter is at its border

            def near(z):
                return np.abs(cx - z) / half - 0.1
            m = min(near(lo).min(), near(hi).min())
            border = 1 if m <= -1e-6 else (-1 if m >= 1e-6 else 0)
        n = min(batch, 4) - 1
        want = [x0 + 2.0**j * (cx - x0) for j in range(1, n + 1)]
        if self.lower is not None:
            want = [np.maximum(w, self.lower) for w in want]
        if self.upper is not None:
            want = [np.minimum(w, self.upper) for w in want]
        new = [self.xs[p - 1] for p in self.pts[base + 1:]]
        cnt = 0
        for w in want:
            for j, z in enumerate(new):
                if np.allclose(w, z, rtol=1e-9, atol=1e-12):
                    cnt += 1
                    del new[j]
                    break
        return border, cnt

    def conv_tests(self, old, new):
        c = self.conv
        f0, f1 = float(old["f"]), float(new["f"])
        x0, x1 = self.xs[old["x"] - 1], self.xs[new["x"] - 1]
        with np.errstate(all="ignore"):
            fa = abs(f0 - f1)
            fr = fa / max(abs(f0), 1)
            xa = np.linalg.norm(x0 - x1)
            xr = np.linalg.norm((x0 - x1) / np.clip(np.abs(x0), 1, np.inf))
        g = self.scalar_model
        ga = np.linalg.norm(g.linear_terms) if g is not None else math.nan
        gr = ga / max(ga, 1)
        vals = [(gr, c["gr"]), (ga, c["ga"]), (fr, c["fr"]), (fa, c["fa"]),
                (xr, c["xr"]), (xa, c["xa"])]
        out = []
        for v, tol in vals:
            v = float(v)
            if v == tol:
                out.append(-1 if tol == 0 else 0)
            elif math.isfinite(v) and math.isfinite(tol) and abs(v - tol) <= 1e-9 * max(abs(v), abs(tol)):
                out.append(0)
            else:
                out.append(-1 if v < tol else 1)
        return out

    def w_sim(self, f, sig, a, k):
        self.insim = True
        n_calls = len(self.calls)
        res = f(*a, **k)
        try:
            kw = self.bound(f, sig, a, k)
            o = kw["options"]
            v = np.asarray(res, dtype=float)
            ua = self.na
            self.add(e="sim", n=len(v), hi=int((v > ua["high_rho"]).sum()),
                     lo=int((v > ua["low_rho"]).sum()),
                     old=self.mid(kw.get("old_vector_model")), vec=self.mid(kw.get("vector_model")),
                     vlink=self.vlink("vector", kw.get("noise_cov")), **self.sim)
            self.noise = {}
        finally:
            self.insim = True
        return res

    # ------------------------------------------------------------------- cfg
    def make_cfg(self, out):
        u = self.user
        ro, st, na = out["radius_options"], out["stagnation_options"], out["noise_adaptation_options"]

        def opt(bundle, name, default):
            b = u.get(bundle) or {}
            b = b if isinstance(b, dict) else b._asdict()
            return b.get(name, default)

        def g(o, name, bundle):
            return opt(bundle, name, getattr(o, name))

        self.ropt = {
            "min": float(g(ro, "min_radius", "radius_options")),
            "max": float(g(ro, "max_radius", "radius_options")),
            "shrink": float(g(ro, "shrinking_factor", "radius_options")),
            "expand": float(g(ro, "expansion_factor", "radius_options")),
            "ratio": float(g(ro, "max_radius_to_step_ratio", "radius_options")),
            "large": float(g(ro, "large_step", "radius_options")),
            "inc": float(g(ro, "rho_increase", "radius_options")),
            "dec": float(g(ro, "rho_decrease", "radius_options")),
            "init": float(g(ro, "initial_radius", "radius_options")),
        }
        self.conv = {
            "fa": float(u.get("convergence_absolute_criterion_tolerance", 0.0)),
            "ga": float(u.get("convergence_absolute_gradient_tolerance", 0.0)),
            "xa": float(u.get("convergence_absolute_params_tolerance", 0.0)),
            "fr": float(u.get("convergence_relative_criterion_tolerance", 2e-9)),
            "gr": float(u.get("convergence_relative_gradient_tolerance", 1e-8)),
            "xr": float(u.get("convergence_relative_params_tolerance", 1e-8)),
        }
        noisy = bool(u.get("noisy", False))
        batch = int(u.get("batch_size") or u.get("n_cores", 1))
        self.na = {n: g(na, n, "noise_adaptation_options") for n in na._fields}
        dec = u.get("acceptance_decider") or ("noisy" if noisy else "classic")
        dec = {"classic": "classic", "noisy": "noisy", "naive_noisy": "naive_noisy",
               "classic_line_search": "line"}.get(dec, "custom") if isinstance(dec, str) else "custom"
        flt = u.get("sample_filter") or ("drop_excess" if batch > 1 else "keep_all")
        flt = flt if isinstance(flt, str) else "custom"
        smp = u.get("sampler", "optimal_hull")
        smp = ("hull" if smp in ("optimal_hull", "random_hull") else "interior") if isinstance(smp, str) else "custom"
        fac = Fraction(opt("sample_filter_options", "n_max_factor", 3)).limit_denominator(1000)
        hi = Fraction(self.na["min_share_high_rho"]).limit_denominator(1000)
        lo = Fraction(self.na["min_share_low_rho"]).limit_denominator(1000)
        sf = u.get("search_radius_factor")
        if sf is None:
            sf = 4.25 if self.functype == "scalar" else 5.0
        tmax = u.get("stopping_max_time", math.inf)
        self.minimp = float(opt("acceptance_decider_options", "min_improvement", 0.0))
        self.confidence = True
        n0 = u.get("n_evals_at_start") or (5 if noisy else 1)
        nev0 = u.get("n_evals_per_point") or (self.na["min_n_evals"] if noisy else 1)
        return {
            "noisy": noisy, "batch": batch, "ncores": int(u.get("n_cores", 1)),
            "target": int(out["target_sample_size"]), "n0": int(n0), "nev0": int(nev0),
            "sf": fp(sf),
            "rinit": N(self.ropt["init"]), "rmin": N(self.ropt["min"]), "rmax": N(self.ropt["max"]),
            "rhodec": N(self.ropt["dec"]), "rhoinc": N(self.ropt["inc"]), "large": fp(self.ropt["large"]),
            "good": N(float(self.na["good_rho_threshold"])),
            "maxiter": min(int(u.get("stopping_max_iterations", 200)), BIG),
            "maxeval": min(int(u.get("stopping_max_criterion_evaluations", 2000)), BIG),
            "tmax": -1 if math.isinf(float(tmax)) else int(float(tmax) * 1000),
            "convdis": bool(u.get("disable_convergence", False)),
            "keep": fp(g(st, "min_relative_step_keep", "stagnation_options")),
            "minrel": fp(g(st, "min_relative_step", "stagnation_options")),
            "drop": bool(g(st, "drop", "stagnation_options")),
            "incr": int(g(st, "sample_increment", "stagnation_options")),
            "trials": int(g(st, "max_trials", "stagnation_options")),
            "decider": dec, "filter": flt, "facNum": fac.numerator, "facDen": fac.denominator,
            "sampler": smp,
            "anmin": int(opt("acceptance_decider_options", "n_min", 4)),
            "anmax": int(opt("acceptance_decider_options", "n_max", 50)),
            "specfac": fp(opt("acceptance_decider_options", "speculative_sampling_radius_factor", 0.75)),
            "minimp": 0 if self.minimp == 0 else (1 if self.minimp > 0 else -1),
            "draws": int(self.na["rho_noise_n_draws"]),
            "nmin": int(self.na["min_n_evals"]), "nmax": int(self.na["max_n_evals"]),
            "hiNum": hi.numerator, "hiDen": hi.denominator,
            "loNum": lo.numerator, "loDen": lo.denominator,
        }

    # ------------------------------------------------------------------- end
    def finish(self, res, elapsed):
        st = []
        means = {}

        def fsnap(i, f):
            snap = []
            if 0 <= i < len(self.vals):
                snap = [self.mean(i, k + 1) for k in range(len(self.vals[i]))]
            return N(f, snap=snap)

        accs = [e for e in self.events if e["e"] == "accept"]
        fils = [e for e in self.events if e["e"] == "filter"]
        for n, s in enumerate(res["states"]):
            d = {"i": int(s.index), "x": self.xid(s.x), "f": fsnap(int(s.index), float(s.fval)),
                 "acc": int(bool(s.accepted))}
            if n > 0:
                e = accs[n - 1] if n - 1 < len(accs) else None
                fl = fils[n - 1] if n - 1 < len(fils) else None
                d.update(
                    ci=int(s.candidate_index), cx=self.xid(s.candidate_x),
                    rho=N(float(s.rho), snap=[e["rho"].v] if e and e["rho"].v != "nan" else []),
                    step=N(float(s.step_length), snap=[e["step"].v] if e and e["step"].v != "nan" else []),
                    c=self.xid(s.trustregion.center),
                    r=N(float(s.trustregion.radius), snap=[fl["tr"]["r"].v] if fl else []),
                    mi=_ints(s.model_indices), new=_ints(s.new_indices),
                    used=_ints(s.old_indices_used), disc=_ints(s.old_indices_discarded),
                    vm=self.mid(s.vector_model), sm=self.mid(s.model),
                    rel=fp(s.relative_step_length),
                    nacc=int(s.n_evals_acceptance) if s.n_evals_acceptance is not None else -1,
                    nev=int(s.n_evals_per_point) if s.n_evals_per_point is not None else -1,
                )
            st.append(d)
        h = res["tranquilo_history"]
        store, ledger, xs = [], [], []
        n_xs = int(h.get_n_xs())
        for i in range(n_xs):
            xs.append(self.xid(h.get_xs(i)))
            store.append([self.vid(v) for v in np.atleast_2d(h.get_fvecs(i))]
                         if len(h.get_fvals(i)) else [])
            fv = [N(float(v)) for v in h.get_fvals(i)]
            store[-1] = store[-1] + fv
        for i in range(len(self.pts)):
            ledger.append([self.vid(v) for v in self.vecs[i]] + [
                N(v) for v in self.vals[i]])
        # aggregated values may differ by rounding
        for a, b in zip(store, ledger):
            for p, q in zip(a, b):
                if isinstance(p, N) and isinstance(q, N):
                    p.v = N(p.v, snap=[q.v]).v if p.v != "nan" and q.v != "nan" else p.v
        f0 = res["states"][0].fval if res["states"] else math.nan
        i_sol = self.cur["i"] if self.cur else 0
        self.add(e="end", x=self.xid(res["solution_x"]),
                 f=fsnap(i_sol, float(res["solution_criterion"])),
                 f0=fsnap(0, float(f0)), st=st, msg=message_code(res["message"]),
                 nfun=int(h.get_n_fun()), store=store, ledger=ledger, xs=xs,
                 elapsed=min(int(elapsed * 1000) + 1, BIG))

    def trace(self, name):
        mean, shift, fin = [], [], []
        for i, v in enumerate(self.vals):
            ms = [self.mean(i, k + 1) for k in range(len(v))]
            mean.append([N(m) for m in ms])
            shift.append([
                N(Fraction(m) + Fraction(self.minimp)) if math.isfinite(m) else N(m) for m in ms])
            fin.append([int(math.isfinite(m)) for m in ms])
        t = {"name": name, "cfg": self.cfg, "x0": self.x0, "initx": self.initx,
             "feas": [self.feasible(x) for x in self.xs],
             "mean": mean, "shift": shift, "fin": fin, "ev": self.events}
        return encode(t)


def rho(cur, cand, ei):
    with np.errstate(all="ignore"):
        act = cur - cand
        if not math.isfinite(cand):
            return -math.inf
        if ei == 0:
            return math.inf if act > 0 else -math.inf
        return float(np.float64(act) / np.float64(ei))


def _back(n, f):
    return float(n.v) if isinstance(n.v, Fraction) else f


def _ints(a):
    return [int(i) for i in np.atleast_1d(a)]


def _close(m, y):
    m, y = np.asarray(m, float), np.asarray(y, float)
    if m.shape != y.shape:
        return False
    inf = ~np.isfinite(m) | ~np.isfinite(y)
    with np.errstate(all="ignore"):
        ok = np.where(inf, (m == y) | (np.isnan(m) & ~np.isfinite(y)) | (np.isnan(y) & ~np.isfinite(m)),
                      np.abs(m - y) <= 1e-9 * np.maximum(1.0, np.abs(m)))
    return bool(ok.all())


def run(name, functype, criterion, x0, lower=None, upper=None, kwargs=None, opts=None,
        record_evaluator=True, prepare=None):
    """Run the optimizer and return (trace, result or None, recorder)."""
    import tranquilo.tranquilo as tm

    kwargs = dict(kwargs or {})
    rec = Recorder(functype, kwargs, lower, upper, criterion, opts)
    if prepare is not None:
        prepare(rec)
    orig_pa = tm.process_arguments
    orig_sim = getattr(tm, "simulate_rho_noise", None)
    sim_sig = None
    if orig_sim is not None:
        sim_sig = list(inspect.signature(orig_sim).parameters)

    @functools.wraps(orig_pa)
    def pa(*a, **k):
        return rec.instrument(orig_pa(*a, **k))

    call = dict(kwargs)
    if record_evaluator:
        call["batch_evaluator"] = rec.evaluator
    t0 = time.perf_counter()
    res = None
    tm.process_arguments = pa
    if orig_sim is not None:
        tm.simulate_rho_noise = functools.partial(Recorder._call, rec.w_sim, orig_sim, sim_sig)
    try:
        res = tm._tranquilo(functype=functype, criterion=criterion, x=x0,
                            lower_bounds=lower, upper_bounds=upper, **call)
        rec.finish(res, time.perf_counter() - t0)
    except Exception as e:  # a crash is an event of the trace
        if not rec.instrumented:
            raise
        rec.crash = f"{type(e).__name__}: {e}"
        rec.add(e="crash", err=rec.crash[:300])
    finally:
        tm.process_arguments = orig_pa
        if orig_sim is not None:
            tm.simulate_rho_noise = orig_sim
    return rec.trace(name), res, rec
