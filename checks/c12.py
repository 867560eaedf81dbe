"""C12: inertial model: every iteration is one velocity Verlet step of x'' = drift(x) - friction * x'."""
import random

import numpy as np
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import rk

MODEL = "ActivityDrivenInertial"


def one(ck, exe, rng, idx):
    n, steps = size_steps(rng, [1, 2, 3, 4, 6, 10, 20], [1, 3, 8])
    p = rand_params(rng, MODEL, n)
    p["dt"] = rng.choice([0.01, 0.1, 0.3, 10 ** rng.uniform(-7, 0), 10 ** rng.uniform(-1, 1)])
    p["friction_coefficient"] = rng.choice([0.0, 0.5, 2.0, rng.uniform(0, 5), rng.uniform(5, 100), 10 ** rng.uniform(-6, 2), 10 ** rng.uniform(1, 6)])
    cfg = config(MODEL, seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1), **p)
    agents = rand_agents(rng, MODEL, n) if rng.random() < 0.6 else None
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (MODEL, n), s.replay())
    nb = p.get("n_bots", 0)
    prev = np.array(s.agents(0))  # opinion, velocity, activity, reluctance
    for t in range(1, steps + 1):
        A = rk.matrix(s.network(t))
        cur = np.array(s.agents(t))
        if not np.array_equal(cur[:, 2:], prev[:, 2:]):
            ck.fail("activity-changed", "iteration %d: activity or reluctance of an agent changed" % t, s.replay())
        x, v, rel_ = prev[:, 0], prev[:, 1], prev[:, 3]
        cand = [rk.verlet(x, v, A, p, rel_, nb, False)]
        if nb:
            cand.append(rk.verlet(x, v, A, p, rel_, nb, True))
        scale = 1000 * rk.sensitivity(lambda y: rk.verlet(y, v, A, p, rel_), x) + 2e-12 * (1 + np.abs(x).max() + np.abs(v).max() + abs(p["K"]) * (np.abs(A).sum() + 1) / rel_.min() * p["dt"]
                                                                                                  + p["friction_coefficient"] * p["dt"] * (1 + p["dt"]) * np.abs(v).max())
        if not any(np.all(np.abs(c[0][nb:] - cur[nb:, 0]) <= scale) for c in cand):
            i = int(np.argmax(np.abs(cand[0][0][nb:] - cur[nb:, 0]))) + nb
            ck.fail("position", "n=%d iteration %d agent %d: opinion %r, Verlet step gives %r" % (n, t, i, cur[i, 0], cand[0][0][i]), s.replay())
            break
        if not any(np.all(np.abs(c[1][nb:] - cur[nb:, 1]) <= scale) for c in cand):
            i = int(np.argmax(np.abs(cand[0][1][nb:] - cur[nb:, 1]))) + nb
            ck.fail("velocity", "n=%d iteration %d agent %d: velocity %r, Verlet step gives %r" % (n, t, i, cur[i, 1], cand[0][1][i]), s.replay())
            break
        ck.count("steps_checked")
        if A.any():
            ck.count("steps_with_interaction")
        prev = cur
    ck.evaluated((n, steps, nb, p["m"], p.get("mean_weights"), p.get("reluctances"), agents is not None, p["alpha"], p["K"],
                  p["dt"], p["friction_coefficient"]))
    if idx < 2:
        ck.sample({"params": p, "n": n, "state": [[float(y) for y in z] for z in prev[:3]]})
    s.clean()


def main():
    ck = Check("C12", "random parameters, agents with velocities, bots, mean-field and probabilistic networks; each recorded "
                      "step is re-integrated from the recorded state and network; distinct by the parameters",
               ["velocities of bots are not judged; bots may be frozen or moving inside a step (both accepted)",
                "reference integrator in numpy, tolerance 2e-12 relative plus 1000 times the effect of rounding the opinions"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 8000 if THOROUGH else 800
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("steps_with_interaction", 0) > 200, "steps with interactions")
    return ck.finish()
