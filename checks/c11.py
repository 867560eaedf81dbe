"""C11: activity driven model: every iteration advances the opinions by one 4th order Runge-Kutta step of
dx_i/dt = -x_i + K/reluctance_i * sum_j A_ij tanh(alpha x_j), with the network of that iteration."""
import random

import numpy as np
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import rk

MODEL = "ActivityDriven"


def one(ck, exe, rng, idx):
    n, steps = size_steps(rng, [1, 2, 3, 4, 6, 10, 20], [1, 3, 8])
    p = rand_params(rng, MODEL, n)
    p["dt"] = rng.choice([0.01, 0.1, 0.3, 10 ** rng.uniform(-7, 0)])
    cfg = config(MODEL, seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1), **p)
    agents = rand_agents(rng, MODEL, n) if rng.random() < 0.5 else None
    if agents and rng.random() < 0.3:
        for a in agents:
            a[1] = 1.0
    if agents and rng.random() < 0.1:
        rng.choice(agents)[2] = rng.choice([10 ** rng.uniform(-9, -3), 10 ** rng.uniform(3, 9)])
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (MODEL, n), s.replay())
    nb = p.get("n_bots", 0)
    prev = np.array(s.agents(0))
    for t in range(1, steps + 1):
        A = rk.matrix(s.network(t))
        cur = np.array(s.agents(t))
        if not np.array_equal(cur[:, 1:], prev[:, 1:]):
            ck.fail("activity-changed", "iteration %d: activity or reluctance of an agent changed" % t, s.replay())
        x, rel_ = prev[:, 0], prev[:, 2]
        cand = [rk.rk4(x, A, p, rel_)]
        if nb:
            cand.append(rk.rk4(x, A, p, rel_, frozen=nb))
        scale = 1000 * rk.sensitivity(lambda y: rk.rk4(y, A, p, rel_), x) + 2e-12 * (1 + np.abs(x).max() + abs(p["K"]) * (np.abs(A).sum() + 1) / rel_.min() * p["dt"])
        ok = [np.all(np.abs(c[nb:] - cur[nb:, 0]) <= scale) for c in cand]
        if not any(ok):
            i = int(np.argmax(np.abs(cand[0][nb:] - cur[nb:, 0]))) + nb
            ck.fail("rk4", "n=%d iteration %d agent %d: opinion %r, Runge-Kutta step gives %r" % (n, t, i, cur[i, 0], cand[0][i]), s.replay())
            break
        ck.count("steps_checked")
        ck.count("edges_seen", int((A != 0).sum()))
        if np.any((A != 0).sum(axis=1) > 0):
            ck.count("steps_with_interaction")
        prev = cur
    ck.evaluated((n, steps, nb, p["m"], p.get("mean_weights"), p.get("reluctances"), agents is not None, p["alpha"], p["K"], p["dt"]))
    if idx < 2:
        ck.sample({"params": p, "n": n, "x": [float(z) for z in prev[:5, 0]]})
    s.clean()


def main():
    ck = Check("C11", "random parameters, agents, bots, mean-field and probabilistic networks; each recorded step is "
                      "re-integrated from the recorded opinions and the recorded network; distinct by the parameters",
               ["bots may be frozen or moving inside the four stages (both accepted), they are covered by C16",
                "reference integrator in numpy, tolerance 2e-12 relative plus 1000 times the effect of rounding the opinions"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 8000 if THOROUGH else 800
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("steps_with_interaction", 0) > 200, "steps with interactions")
    return ck.finish()
