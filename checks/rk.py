"""Reference formulas of the activity driven models, evaluated on recorded states."""
import math

import numpy as np


def matrix(net):
    n = len(net)
    A = np.zeros((n, n))
    for i, (nb, w) in enumerate(net):
        for j, x in zip(nb, w):
            A[i, j] += x
    return A


def slopes(x, A, p, rel):
    return -x + p["K"] / rel * (A @ np.tanh(p["alpha"] * x))


def rk4(x, A, p, rel, frozen=0):
    """one Runge-Kutta step; the first `frozen` agents are kept fixed in all stages"""
    dt = p["dt"]

    def f(y):
        k = slopes(y, A, p, rel)
        k[:frozen] = 0
        return k

    k1 = f(x)
    k2 = f(x + 0.5 * dt * k1)
    k3 = f(x + 0.5 * dt * k2)
    k4 = f(x + dt * k3)
    return x + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def verlet(x, v, A, p, rel, bots=0, frozen=False):
    dt, f = p["dt"], p["friction_coefficient"]
    d0 = slopes(x, A, p, rel)
    x1 = x + v * dt + 0.5 * (d0 - f * v) * dt * dt
    y = x1.copy()
    if frozen:
        y[:bots] = x[:bots]
    d1 = slopes(y, A, p, rel)
    v1 = (v + 0.5 * dt * (d0 - f * v + d1)) / (1 + 0.5 * f * dt)
    return x1, v1


def meanfield(x, act, p, factor):
    """expected incoming weights A[i, j] (influence of j on i); factor(activity) scales the contact probabilities"""
    n = len(x)
    P = np.zeros((n, n))
    nb = p.get("n_bots", 0)
    for i in range(n):
        h = p["bot_homophily"][i] if i < nb else p["homophily"]
        m = p["bot_m"][i] if i < nb else p["m"]
        w = np.maximum(1e-10, np.abs(x[i] - x)) ** (-h)
        w[i] = 0.0
        if n == 1:
            break
        w = w / w.sum()
        q = np.zeros(n)
        tot = np.zeros(n)
        for _ in range(m):
            q = w * (1 - q)
            tot += q
        P[i] = factor(act[i]) * tot
    return P.T + (1 - P.T) * p["reciprocity"] * P


def sensitivity(step, x):
    """How much the result of a step changes per relative rounding error of 1e-15 (elementwise maximum over the agents)"""
    out = step(x)
    out = out if isinstance(out, tuple) else (out,)
    d = 0.0
    for pat in (1.0, -1.0):
        s = np.where(np.arange(len(x)) % 2 == 0, 1.0, pat)
        o = step(x * (1 + 1e-15 * s))
        o = o if isinstance(o, tuple) else (o,)
        d = max(d, max(float(np.max(np.abs(a - b))) for a, b in zip(o, out)))
    return d
