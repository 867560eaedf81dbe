"""C10: DeGroot stops at the first iteration whose largest opinion change is below the tolerance (default 1e-6) or at
max_iterations, and on a strongly connected averaging network the consensus is the stationary average of the initial opinions."""
import math
import random

import numpy as np
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *

SAFETY = 3000


def stationary(net):
    n = len(net)
    W = np.zeros((n, n))
    for i, (nb, w) in enumerate(net):
        for j, x in zip(nb, w):
            W[i, j] += x
    A = np.vstack([W.T - np.eye(n), np.ones(n)])
    b = np.zeros(n + 1)
    b[-1] = 1
    pi = np.linalg.lstsq(A, b, rcond=None)[0]
    ev = sorted(np.abs(np.linalg.eigvals(W)))
    lam = ev[-2] if n > 1 else 0.0
    return pi, lam


def one(ck, exe, rng, idx):
    n = rng.choice([1, 1, 2, 3, 4, 6, 10, 20, 20, 65, 130])
    tol = rng.choice([None, None, None, 1e-3, 1e-4, 1e-9, 1e-12, 0.0, 0.5, 3.0, 10 ** rng.uniform(-13, 0)])
    maxit = rng.choice([None, None, 1, 2, 7, 40, 0, rng.randint(1, 300)])
    if tol == 0.0 and maxit is None:
        maxit = 25
    p = {} if tol is None else {"convergence": tol}
    kind = rng.choice(["strong", "strong", "any", "osc", "generated"])
    net = None
    if kind == "strong":
        net = rand_strong_network(rng, n)
    elif kind == "any":
        net = rand_network(rng, n, stochastic=True)
        maxit = rng.choice([3, 30])
    elif kind == "osc":  # a permutation: never converges unless all opinions are equal
        perm = list(range(n))
        rng.shuffle(perm)
        net = [([j], [1.0]) for j in perm]
        maxit = rng.choice([1, 4, 17])
    if n == 1 and rng.random() < 0.5:  # a single agent that forgets
        kind, net, maxit = "any", [([0], [rng.choice([0.5, 0.9, 0.99, -0.5])])], 60
    cfg = config("DeGroot", seed=rng.randint(0, 10**6), n=n, c=max(0, min(3, n - 1)), **p)
    if not p:
        del cfg["DeGroot"]
    cfg["model"]["max_iterations"] = maxit
    agents, scale = None, 1.0
    if rng.random() < 0.6:
        scale = rng.choice([1.0, 1.0, 30.0, 1e3])
        agents = [[rng.uniform(-scale, scale)] for _ in range(n)]
        if rng.random() < 0.1:
            agents = [[0.25] for _ in range(n)]
    s = Sim(ck, exe, cfg, net=net, agents=agents, timeout=40)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "DeGroot %s n=%d tol=%r max_iterations=%r" % (kind, n, tol, maxit), s.replay())
    T = finished_after(s.r.out)
    op = sorted(int(f[len("opinions_"):-4]) for f in s.files() if f.startswith("opinions_"))
    if op != list(range(len(op))) or (T is not None and T != op[-1]):
        ck.fail("iterations", "prints %r iterations but wrote opinions of %r" % (T, op[-5:]), s.replay())
        return
    T = op[-1]
    xs = [[r[0] for r in s.agents(t)] for t in range(T + 1)]
    eff = 1e-6 if tol is None else tol
    if maxit is not None and T > maxit:
        ck.fail("past-max", "max_iterations=%d but %d iterations" % (maxit, T), s.replay())
    for t in range(1, T + 1):
        d = max([abs(a - b) for a, b in zip(xs[t], xs[t - 1])] or [0.0])
        if d < eff and t < T:
            ck.fail("late-stop", "n=%d: largest change %g < tolerance %g in iteration %d, but the run goes on to %d"
                    % (n, d, eff, t, T), s.replay())
            break
        if t == T and not d < eff and (maxit is None or T < maxit):
            ck.fail("early-stop", "n=%d: stops after iteration %d with largest change %g >= tolerance %g (max_iterations=%r)"
                    % (n, T, d, eff, maxit), s.replay())
    if maxit is not None and maxit > 0 and T == 0 or (maxit is None and T == 0):
        ck.fail("early-stop", "no iteration at all", s.replay())
    if T > 0:
        ck.count("stopped_by_tolerance" if (maxit is None or T < maxit) else "stopped_by_max_iterations")
    if kind in ("strong",) and T > 0:
        pi, lam = stationary(net)
        inv = [float(np.dot(pi, x)) for x in xs]
        for t in range(1, T + 1):
            if abs(inv[t] - inv[0]) > 1e-9 * scale:
                ck.fail("stationary-average", "n=%d iteration %d: the stationary average of the opinions moved from %r to %r"
                        % (n, t, inv[0], inv[t]), s.replay())
                break
        if (maxit is None or T < maxit) and lam < 0.98 and eff <= 1e-3:
            bound = 50 * n * eff / (1 - lam) + 1e-9 * scale
            err = max(abs(x - inv[0]) for x in xs[T])
            if err > bound:
                ck.fail("consensus", "n=%d: final opinions %r, consensus should be %r" % (n, xs[T][:4], inv[0]), s.replay())
            ck.count("consensus_values_checked")
    ck.evaluated((kind, n, tol, maxit, T))
    if idx < 3:
        ck.sample({"kind": kind, "n": n, "tol": tol, "max_iterations": maxit, "stopped_after": T})
    s.clean()


def lasting(ck, exe, rng, idx):
    """Two agents that exchange their opinions for ever: only the limit ends the run."""
    maxit = [65535, 65536, 65537, 70000, 100003, 131072, 200000, rng.randint(10**5, 3 * 10**5)][idx % 8]
    cfg = config("DeGroot", seed=1, n=2, c=1, max_iterations=maxit, convergence=rng.choice([0.0, 1e-6, 1e-3]), io={"n_output_agents": maxit, "output_initial": False})
    s = Sim(ck, exe, cfg, net=[([1], [1.0]), ([0], [1.0])], agents=[[0.5], [-0.25]], timeout=120)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "DeGroot max_iterations=%d" % maxit, s.replay())
    T = finished_after(s.r.out)
    x = s.agents(maxit) if "opinions_%d.txt" % maxit in s.files() else None
    if (T is not None and T != maxit) or x is None:
        ck.fail("limit", "max_iterations=%d, but the run says %r and writes %s" % (maxit, T, s.files()), s.replay())
    elif x != ([[0.5], [-0.25]] if maxit % 2 == 0 else [[-0.25], [0.5]]):
        ck.fail("limit", "after %d exchanges the opinions are %r" % (maxit, x), s.replay())
    ck.count("long_runs")
    ck.evaluated(("lasting", maxit))
    s.clean()


def main():
    ck = Check("C10", "random averaging networks (strongly connected, arbitrary, permutations, generated) x tolerance "
                      "(including the default) x max_iterations (including none); the stopping iteration is recomputed from the "
                      "recorded opinions; a case is distinct by (kind, n, tol, max_iterations, observed stop)",
               ["the consensus value is judged against the stationary distribution computed with numpy"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 8000 if THOROUGH else 900
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(24 if THOROUGH else 8)]
    pmap(lambda t: lasting(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("stopped_by_tolerance", 0) > 50 and ck.counters.get("stopped_by_max_iterations", 0) > 50, "both ways to stop")
    ck.require(ck.counters.get("consensus_values_checked", 0) > 20, "consensus values")
    return ck.finish()
