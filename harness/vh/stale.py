"""Reference of a recorded finding: the damping iteration of the gqtpar solvers.

After a candidate inside the ball the solvers change the damping factor, but solve the next
system with the old factorization (`stale=True`). Results that are not optimal are this
finding only if they are the results of exactly this iteration.
"""
import numpy as np
from scipy.linalg import LinAlgError, cho_solve, solve_triangular
from scipy.linalg.lapack import dpotrf
from scipy.optimize._trustregion_exact import estimate_smallest_singular_value


def _between(lo, up):
    return max(np.sqrt(max(lo * up, 0)), lo + 0.01 * (up - lo))


def _to_sphere(z, d):
    a, b, c = d @ d, 2 * z @ d, z @ z - 1
    aux = b + np.copysign(np.sqrt(b * b - 4 * a * c), b)
    return min([-aux / (2 * a), -2 * c / aux], key=abs)


def damped(g, h, k_easy, k_hard, maxiter, stale):
    n = len(g)
    x = np.zeros(n)
    gn, inf, fro = np.linalg.norm(g), np.linalg.norm(h, np.inf), np.linalg.norm(h, "fro")
    if gn <= n * np.finfo(float).eps * inf:
        return x
    dg, rows = np.diag(h), np.abs(h).sum(axis=1)
    low, upp = np.min(dg + abs(dg) - rows), np.max(dg - abs(dg) + rows)
    lo = max(0, -dg.min(), gn - min(upp, fro, inf))
    up = max(0, gn + min(-low, fro, inf))
    lam = 0 if lo == 0 else _between(lo, up)
    keep = False
    for _ in range(maxiter):
        if not keep:
            hl = h + lam * np.eye(n)
            u, info = dpotrf(hl, lower=False, overwrite_a=False, clean=True)
        keep = False
        if info != 0:
            v = np.zeros(n)
            v[info - 1] = 1
            k = info - 1
            if k:
                v[:k] = solve_triangular(u[:k, :k], -u[:k, k])
            lo = max(lo, lam + (np.sum(u[:k, k] ** 2) - hl[k, k]) / (v @ v))
            lam = _between(lo, max(up, 1.001 * lo))
            continue
        x = cho_solve((u, False), -g)
        p = np.linalg.norm(x)
        done = p <= 1 and lam == 0
        w = np.linalg.norm(solve_triangular(u, x, trans="T"))
        newton = lam + (p / w) ** 2 * (p - 1)
        if p < 1:
            s, z = estimate_smallest_singular_value(u)
            t = _to_sphere(x, z)
            if t**2 * s**2 / (x @ hl @ x + lam) <= k_hard:
                x, done = x + t * z, True
            lo = max(lo, lam - s**2)
            hl = h + newton * np.eye(n)
            new, bad = dpotrf(hl, lower=False, overwrite_a=False, clean=True)
            if bad == 0:
                if not stale:
                    u = new
                keep, new_lam = True, newton
            else:
                lo = max(lo, newton)
                new_lam = _between(lo, lam)
            lam, up = new_lam, lam
        else:
            done |= abs(p - 1) <= k_easy
            lo, lam = lam, newton
        if done:
            break
    return x


def is_stale(x, g, h, k_easy, k_hard, maxiter):
    try:
        a, b = (damped(g, h, k_easy, k_hard, maxiter, s) for s in (True, False))
    except (LinAlgError, ValueError, ArithmeticError):
        return 0

    def value(x):
        x = x / max(1.0, np.linalg.norm(x))
        return g @ x + x @ h @ x / 2

    # the correct iteration is better than the recorded one, and the solver does the latter
    gap = value(a) - value(b)
    return int(gap > 0 and abs(value(np.asarray(x)) - value(a)) <= 1e-3 * gap)
