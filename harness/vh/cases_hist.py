"""The evaluation history: sequences of operations and queries (C27)."""
import numpy as np

from vh.cases import Frame, kind
from vh.numbers import fp


def _X(k):
    return [2 * k / 4, (k * k) % 7 / 4]


def _quarters(row):
    return [fp(4 * v, 1) if v * 4 == round(v * 4) else -999 for v in np.asarray(row, float)]


def _int(v):
    v = float(v)
    return int(v) if v == int(v) else -999


def _vec(row):
    return [_int(v) for v in np.atleast_1d(row)]


def _val(ft, m):
    return float(m) if ft == "scalar" else [float(m), 2.0]


def _query(c, n):
    """Selections of all kinds; deterministic in the number of points."""
    if n == 0:
        return []
    hi = min(n, 6)
    mask = [(3 * i + n) % 2 for i in range(n)] if n < 40 else [int(i in (0, 2, n - 1))
                                                              for i in range(n)]
    qs = [{"form": "int", "idx": [n - 1]}, {"form": "int", "idx": [-1]},
          {"form": "npint", "idx": [0]},
          {"form": "list", "idx": [n - 1, 0]}, {"form": "list", "idx": [0, -1]},
          {"form": "array", "idx": [0, n // 2, 0]}, {"form": "floatarray", "idx": [n - 1]},
          {"form": "array", "idx": []}, {"form": "slice", "a": 0, "b": hi, "step": 1},
          {"form": "slice", "a": 1, "b": hi, "step": 2},
          {"form": "mask", "mask": mask}]
    if n < 40:
        qs.append({"form": "mask", "mask": [1] * n})
        qs.append({"form": "listmask", "mask": mask})
    return qs


def _selector(q):
    f = q["form"]
    if f == "int":
        return q["idx"][0]
    if f == "npint":
        return np.int64(q["idx"][0])
    if f == "list":
        return list(q["idx"])
    if f == "array":
        return np.array(q["idx"], dtype=int)
    if f == "floatarray":
        return np.array(q["idx"], dtype=float)
    if f == "slice":
        return slice(q["a"], q["b"], q["step"])
    if f == "mask":
        return np.array(q["mask"], dtype=bool)
    return [bool(v) for v in q["mask"]]


@kind("history")
def _history(c):
    from tranquilo.history import History
    from tranquilo.region import Region
    frame = Frame(c, 2)

    def X(k):
        return frame.put(_X(k)).tolist()

    def _x(row):
        return _quarters(frame.back(row))

    ft = c["ft"]
    h = History(functype=ft)
    steps, copies = [], []
    m = 0

    def watch():
        n = h.get_n_xs()
        return sorted({*range(min(n, 5)), *range(max(0, n - 2), n)})

    for o in c["ops"]:
        rej, ret, scalar = 0, [], 0
        if o["op"] in ("xs", "grow"):
            n0 = h.get_n_xs()
            pts = [X(n0 + k) for k in range(o["n"])]
            form = o.get("form", "array")
            arg = (np.array(pts[0]) if form == "single" else
                   [np.array(p) for p in pts] if form == "list" else
                   np.array(pts).reshape(o["n"], 2))
            got = h.add_xs(arg)
            if o["op"] == "grow":
                vals = np.array([_val(ft, m + k + 1) for k in range(o["n"])])
                h.add_evals(got, vals)
                m += o["n"]
                vals[:] = -7
            else:
                scalar = int(np.ndim(got) == 0)
                ret = [int(i) for i in np.atleast_1d(got)]
            for a in (arg if isinstance(arg, list) else [arg]):
                a[...] = -77.0  # the caller reuses the memory
        else:
            idx = o["idx"]
            vals = [_val(ft, m + k + 1) for k in range(len(idx))]
            if o["form"] == "int":
                args = idx[0], np.array(vals[0])
            elif o["form"] == "array":
                args = np.array(idx, dtype=int), np.array(vals)
            else:
                args = list(idx), [np.array(v) for v in vals]
            try:
                h.add_evals(*args)
                m += len(idx)
            except Exception:  # noqa: BLE001
                rej = 1
            for a in (args[1] if isinstance(args[1], list) else [args[1]]):
                a[...] = -77.0
        s = {"rej": rej, "ret": ret, "scalar": scalar, "n": int(h.get_n_xs()),
             "nf": int(h.get_n_fun()), "xs": [], "ev": []}
        w = watch()
        if h.get_n_xs():
            allx = h.get_xs()
            s["xs"] = [{"i": i, "x": _x(allx[i])} for i in w]
            if len(allx) != s["n"]:
                s["n"] = -1
            copies.append((allx, np.array(allx)))
        if h.get_n_fun():
            vec, fv, ne = h.get_fvecs(w), h.get_fvals(w), h.get_n_evals(w)
            s["ev"] = [{"i": i, "vec": [_vec(r) for r in vec[i]],
                        "fv": [_int(v) for v in fv[i]], "n": int(ne[i])} for i in w]
            copies += [(v, np.array(v)) for d in (vec, fv) for v in d.values()]
        steps.append(s)

    n = h.get_n_xs()
    ev = h.get_n_fun() > 0
    c["q"] = _query(c, n) if ev else []
    out_q = []
    for q in c["q"]:
        sel = _selector(q)
        xs = np.atleast_2d(h.get_xs(sel)).reshape(-1, 2)
        vec, fv = h.get_fvecs(sel), h.get_fvals(sel)
        if q["form"] in ("int", "npint"):
            key = q["idx"][0] % n
            vec, fv = {key: vec}, {key: fv}
        out_q.append({"xs": [_x(r) for r in xs], "keys": [int(k) for k in vec],
                      "vec": [[_vec(r) for r in v] for v in vec.values()],
                      "fv": [[_int(a) for a in v] for v in fv.values()]})
    centers = [([0, 0], 0), ([0, 0], 5), ([2, 1], 4), ([4, 4], 5), ([3, 1], 2)]
    if n:
        centers.append(([4 * v for v in _X(n - 1)], 6))
    c["reg"] = [{"c": [int(v) for v in a], "r": r} for a, r in centers] if ev else []
    reg = [[int(i) for i in h.get_x_indices_in_region(
        Region(center=frame.put(np.array(q["c"]) / 4), radius=frame.s * q["r"] / 4))] for q in c["reg"]]
    c["md"] = [s for s in ([0], [0, 1], [1, 0], [2, 0, 1]) if max(s) < n] if ev else []
    md = []
    for s in c["md"]:
        have = h.get_n_evals(s)
        if min(have.values()) == 0:
            md.append({})
            continue
        ax, ay = h.get_model_data(s, average=True)
        rx, ry = h.get_model_data(s, average=False)
        md.append({"avgx": [_x(r) for r in ax],
                   "avgy": [[fp(v, 1000) for v in np.atleast_1d(r)] for r in ay],
                   "rawx": [_x(r) for r in rx], "rawy": [_vec(r) for r in ry]})
    kept = all(np.array_equal(a, b) for a, b in copies)
    return {"steps": steps, "q": out_q, "reg": reg, "md": md, "kept": int(kept)}


def rnd_history(rng, k):
    ops = []
    n = 0
    for _ in range(int(rng.integers(4, 14))):
        if n == 0 or rng.random() < 0.35:
            m = int(rng.integers(0, 4))
            form = str(rng.choice(["array", "list", "single"]))
            m = 1 if form == "single" else (max(m, 1) if form == "list" else m)
            ops.append({"op": "xs", "n": m, "form": form})
            n += m
        else:
            L = int(rng.integers(0, 6))
            idx = rng.integers(0, n, size=L).tolist()
            if rng.random() < 0.1 and L:
                idx[int(rng.integers(L))] = int(rng.choice([n, -1, n + 3]))
            form = str(rng.choice(["array", "list"] if L != 1 else ["array", "list", "int"]))
            ops.append({"op": "ev", "idx": idx, "form": form})
    return {"kind": "history", "ft": ["least_squares", "likelihood", "scalar"][k % 3], "ops": ops}
