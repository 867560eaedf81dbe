"""C20: initial conditions of the agents."""
import math
import random

import numpy as np
from scipy.special import ndtr, ndtri
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *


def ks(sample, cdf):
    x = np.sort(np.asarray(sample))
    n = len(x)
    F = cdf(x)
    return math.sqrt(n) * max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))


LIM = 3.9  # P(sqrt(n) D > 3.9) < 2 exp(-2 * 3.9^2) = 1.2e-13


def pl_cdf(eps, g):
    return lambda x: (x ** (1 - g) - eps ** (1 - g)) / (1 - eps ** (1 - g))


def tn_cdf(mean, sig, eps):
    a = ndtr((eps - mean) / sig)
    return lambda x: (ndtr((x - mean) / sig) - a) / (1 - a)


def spearman(a, b):
    ra, rb = np.argsort(np.argsort(a)), np.argsort(np.argsort(b))
    return float(np.corrcoef(ra, rb)[0, 1])


POOL = {}  # what -> values of the distribution function, of all runs


def pool(ck, what, u, rep):
    with ck._lock:
        POOL.setdefault(what, []).append((u, rep))


def ties(ck, what, y, rep):
    """a continuous distribution does not give the same value several times"""
    v, c = np.unique(y, return_counts=True)
    if c.max() > 3 or (c > 1).sum() > 20:
        ck.fail("ties", "%s: the value %r occurs %d times in %d agents" % (what, v[c.argmax()], c.max(), len(y)), rep)


def pooled(ck):
    for what, l in POOL.items():
        if what == "bits":
            k, N = sum(int(a) for (a, _), _ in l), sum(b for (_, b), _ in l)
            if abs(k - N / 2) > 7.5 * math.sqrt(N / 4):
                ck.fail("fair-bits", "%d ones in %d bits of %d runs" % (k, N, len(l)), l[0][1])
            ck.count("pooled_bits", N)
            continue
        u = np.concatenate([a for a, _ in l])
        D = ks(u, lambda y: y)
        if D > LIM:
            ck.fail("pooled-" + what, "%d values of %d runs do not follow the documented distribution: sqrt(n) D = %.2f"
                    % (len(u), len(l), D), l[0][1])
        ck.count("pooled_" + what, len(u))


def simple(ck, exe, rng, idx):
    model = rng.choice(["DeGroot", "Deffuant"])
    n = rng.choice([1, 2, 3, 7, 100, 999])
    extra = {}
    if model == "Deffuant" and rng.random() < 0.4:
        n = rng.choice([1, 4, 9, 100])
        extra = {"use_network": True}
    s = Sim(ck, exe, config(model, seed=rng.randint(-2**31, 2**31 - 1), max_iterations=0, n=n, c=0, **extra))
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    x = [r[0] for r in s.agents(0)]
    if len(x) != n or any(abs(v - i / n) > 1e-15 for i, v in enumerate(x)):
        ck.fail("evenly-spaced", "%s n=%d: initial opinions %r" % (model, n, x[:5]), s.replay())
    ck.evaluated((model, n, bool(extra)))
    s.clean()


def gf2_rank(rows):
    """rank of a list of bit masks"""
    basis = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h not in basis:
                basis[h] = r
                break
            r ^= basis[h]
    return len(basis)


def dependence(x):
    """x: N times d random bits. Is a component a linear function (mod 2) of the other ones and of the bits of the index?"""
    N, d = x.shape
    idx = np.arange(N)
    cols = [x[:, j].astype(int) for j in range(d)] + [np.ones(N, int)] + [(idx >> b) & 1 for b in range(max(1, (N - 1).bit_length())) if N > 1]
    if N < len(cols) + 60:  # by chance with a probability below 2^-59
        return False
    return gf2_rank([int("".join(map(str, c)), 2) for c in cols]) < len(cols)


def vector(ck, exe, rng, idx):
    n, dim = rng.choice([(400, 25), (2000, 5), (9, 1000), (100, 100), (300, 33), (300, 64), (250, 130), (1, 5000)])
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(-2**31, 2**31 - 1), max_iterations=0, n=n, c=0, binary_vector=True, dim=dim))
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "vector n=%d" % n, s.replay())
    x = np.array(s.agents(0))
    if x.shape != (n, dim) or not np.all((x == 0) | (x == 1)):
        ck.fail("binary", "n=%d dim=%d: initial opinions of shape %r are not zeros and ones" % (n, dim, x.shape), s.replay())
        return
    N = n * dim
    pool(ck, "bits", (x.sum(), N), s.replay())
    z = [abs(x.sum() - N / 2) / math.sqrt(N / 4)]
    for ax in (0, 1):
        m = x.sum(axis=ax)
        k = x.shape[ax]
        z.append(float(np.max(np.abs(m - k / 2)) / math.sqrt(k / 4)) if k > 200 else 0.0)
    for a, b in ((x[:, :-1], x[:, 1:]), (x[:-1], x[1:])):
        if a.size > 200:
            z.append(abs(float((a == b).sum()) - a.size / 2) / math.sqrt(a.size / 4))
    y = 2 * x - 1
    if n >= 100 and dim >= 2:  # any two components agree for half the agents, any two agents in half the components
        c = np.abs(y.T @ y - n * np.eye(dim)) / math.sqrt(n)
        z.append(float(c.max()))
        ck.count("pairs_of_components", dim * (dim - 1) // 2)
    if dim >= 100 and n >= 2:
        z.append(float((np.abs(y @ y.T - dim * np.eye(n)) / math.sqrt(dim)).max()))
    if dependence(x):
        ck.fail("dependent-bits", "n=%d dim=%d: the components of the agents are not linearly independent" % (n, dim), s.replay())
    if dependence(x.T):
        ck.fail("dependent-bits", "n=%d dim=%d: the agents are not linearly independent" % (n, dim), s.replay())
    if max(z) > 7.5:
        ck.fail("fair-bits", "n=%d dim=%d: deviations of %r sigma from independent fair bits" % (n, dim, z), s.replay())
    ck.evaluated(("vector", n, dim, float(x.sum())))
    s.clean()


def activity(ck, exe, rng, idx):
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n = 60000 if THOROUGH else 20000
    p = rand_params(rng, model, 10, bots=rng.choice([0, 0, 3, 300]), mean_weights=False)
    p.update(eps=rng.choice([0.01, 0.1, 0.5, 0.9]), gamma=rng.uniform(2.05, 4))
    p["mean_activities"] = idx % 8 == 0
    if rng.random() < 0.65:
        p.update(reluctances=True, reluctance_mean=rng.uniform(0.3, 2), reluctance_sigma=rng.uniform(0.05, 0.6),
                 reluctance_eps=rng.uniform(0.01, 0.5), covariance_factor=rng.choice([0.0, 1.0, -1.0, rng.uniform(-1, 1), rng.uniform(-1, 1)]))
    elif rng.random() < 0.5:
        p["reluctances"] = False
    cfg = config(model, seed=rng.randint(-2**31, 2**31 - 1), max_iterations=0, n=n, c=1, **p)
    # a network file without edges, because the generation of a network takes O(n^2)
    u = rng.random()
    if u < 0.15:
        n = cfg["network"]["number_of_agents"] = 3000
        s = Sim(ck, exe, cfg)
    elif u < 0.3:  # mean weights, which need a full network
        p["mean_weights"] = cfg[model]["mean_weights"] = True
        n = cfg["network"]["number_of_agents"] = 700
        s = Sim(ck, exe, cfg)
    else:
        s = Sim(ck, exe, cfg, net="".join("%d, 0\n" % i for i in range(n)))
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, model, s.replay())
    raw = np.array(s.agents(0))
    nb = p.get("n_bots", 0)
    d = raw[nb:]
    if model == "ActivityDriven":
        x, a, r = d[:, 0], d[:, 1], d[:, 2]
    else:
        x, v, a, r = d.T
        if np.any(raw[:, 1] != 0):
            ck.fail("velocity", "initial velocities are not zero", s.replay())
    if len(raw) != n:
        ck.fail("size", "%d agents instead of %d" % (len(raw), n), s.replay())
        return
    lab = "%s eps=%g gamma=%g" % (model, p["eps"], p["gamma"])
    rall = raw[:, -1]  # bots have a reluctance like all the others
    if x.min() < -1 or x.max() > 1:
        ck.fail("opinion-range", "%s: initial opinions in [%r, %r]" % (lab, x.min(), x.max()), s.replay())
    D = ks(x, lambda y: (y + 1) / 2)
    if D > LIM:
        ck.fail("opinion-uniform", "%s: initial opinions are not uniform in [-1, 1]: sqrt(n) D = %.2f" % (lab, D), s.replay())
    pool(ck, "opinion", (x + 1) / 2, s.replay())
    ties(ck, lab + " opinions", np.abs(x), s.replay())
    eps, g = p["eps"], p["gamma"]
    ck.count("distributions_tested", 1)
    if p["mean_activities"]:
        want = (1 - g) / (2 - g) * (1 - eps ** (2 - g)) / (1 - eps ** (1 - g))
        wrong = -(1 - g) / (2 - g) * eps ** (2 - g) / (1 - eps ** (1 - g))
        if a.min() != a.max():
            ck.fail("mean-activity", "%s: mean_activities, but the activities are in [%r, %r]" % (lab, a.min(), a.max()), s.replay())
        elif abs(a[0] - want) < 1e-9 * abs(want):
            ck.count("mean_correct")
        elif abs(a[0] - wrong) < 1e-9 * abs(wrong):
            ck.fail("mean-formula", "%s: mean activity %r, the mean of the distribution is %r" % (lab, a[0], want), s.replay())
        else:
            ck.fail("mean-activity", "%s: mean activity %r, the mean of the distribution is %r" % (lab, a[0], want), s.replay())
    else:
        if a.min() < eps * (1 - 1e-9) or a.max() > 1 + 1e-9:
            ck.fail("activity-range", "%s: activities in [%r, %r]" % (lab, a.min(), a.max()), s.replay())
        D = ks(a, pl_cdf(eps, g))
        if D > LIM:
            ck.fail("activity-distribution", "%s: activities do not follow the power law: sqrt(n) D = %.2f" % (lab, D), s.replay())
        ck.count("distributions_tested", 1)
        pool(ck, "activity", pl_cdf(eps, g)(a), s.replay())
        ties(ck, lab + " activities", a, s.replay())
    if p.get("reluctances"):
        mean, sig, re_, cov = p["reluctance_mean"], p["reluctance_sigma"], p["reluctance_eps"], p["covariance_factor"]
        lab += " reluctance %g %g %g covariance %g" % (mean, sig, re_, cov)
        if rall.min() < re_ - 1e-7 * (1 + sig):
            ck.fail("reluctance-range", "%s: smallest reluctance %r" % (lab, r.min()), s.replay())
        D = ks(rall, tn_cdf(mean, sig, re_))
        if D > LIM:
            ck.fail("reluctance-distribution", "%s: reluctances do not follow the truncated normal: sqrt(n) D = %.2f" % (lab, D), s.replay())
        ck.count("distributions_tested", 1)
        pool(ck, "reluctance", tn_cdf(mean, sig, re_)(rall), s.replay())
        ties(ck, lab + " reluctances", rall, s.replay())
        if not p["mean_activities"]:
            rho = spearman(a, r)
            want = 6 / math.pi * math.asin(cov / 2)
            if abs(rho - want) > 8 / math.sqrt(len(a)) * (1.3 - min(1, want * want)) + 1e-4:
                ck.fail("correlation", "%s: rank correlation of activity and reluctance %.4f, expected %.4f" % (lab, rho, want), s.replay())
            if abs(cov) < 0.999:  # and the whole dependence is that of the Gaussian copula
                c = lambda u: ndtri(np.clip(u, 1e-15, 1 - 1e-15))
                e = (c(tn_cdf(mean, sig, re_)(r)) - cov * c(pl_cdf(eps, g)(a))) / math.sqrt(1 - cov * cov)
                D = max(ks(e, ndtr), ks((e + c(pl_cdf(eps, g)(a))) / math.sqrt(2), ndtr))
                if D > LIM:
                    ck.fail("copula", "%s: the dependence is not that of the Gaussian copula: sqrt(n) D = %.2f" % (lab, D), s.replay())
                ck.count("copulas_tested")
            ck.count("correlations_tested")
        if abs(spearman(x, r)) > 8 / math.sqrt(len(a)):
            ck.fail("independence", "%s: opinions and reluctances are correlated" % lab, s.replay())
    elif np.any(rall != 1.0):
        ck.fail("reluctance-default", "%s: reluctances are not 1" % lab, s.replay())
    if not p["mean_activities"] and abs(spearman(x, a)) > 8 / math.sqrt(len(a)):
        ck.fail("independence", "%s: opinions and activities are correlated" % lab, s.replay())
    for name, y in (("opinion", x),) + ((("activity", a),) if not p["mean_activities"] else ()):
        if abs(spearman(y[:-1], y[1:])) > 8 / math.sqrt(len(a)):
            ck.fail("independence", "%s: the %s of consecutive agents are correlated" % (lab, name), s.replay())
    ck.evaluated((model, repr(p)))
    if idx < 2:
        ck.sample({"params": p, "first": [[float(z) for z in row] for row in d[:2]]})
    s.clean()


def main():
    ck = Check("C20", "initial states (written before the first iteration) of random configurations; the 20000 (60000) agents of an "
                      "activity driven run are tested against the documented distributions; distinct by parameters",
               ["Kolmogorov-Smirnov limit with false alarm probability below 1e-12 per test, correlations 8 sigma",
                "truncation at most about 3 sigma from the mean"])
    exe = build("seldon:asan")["seldon:asan"]
    k = 6 if THOROUGH else 1
    for f, N in ((activity, 90 * k), (simple, 100 * k), (vector, 24 * k)):
        seeds = [ck.rng.getrandbits(60) for _ in range(N)]
        pmap(lambda t: f(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pooled(ck)
    ck.require(ck.counters.get("distributions_tested", 0) > 60, "distributions")
    return ck.finish()
