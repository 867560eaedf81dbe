"""C15: mean-field contact network."""
import random

import numpy as np
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import rk


def one(ck, exe, rng, idx):
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n, steps = size_steps(rng, [1, 2, 3, 4, 6, 12], [1, 3, 5], big=(30, 64, 65, 80), far=(40, 101))
    if idx % 160 == 159:
        n, steps = rng.choice([257, 300, 520]), rng.choice([1, 2])
    p = rand_params(rng, model, n, mean_weights=True, bots=rng.choice([0, 0, None]))
    p["m"] = rng.choice([0, 1, 2, 3, 6, n, rng.randint(0, 50)])
    p["mean_activities"] = False
    p["dt"], p["K"], p["alpha"] = rng.choice([0.01, 0.1]), 2.0, 1.0
    p["homophily"] = rng.choice([0.0, 0.5, 1.3, 2.0, -1.0, rng.uniform(-3, 3)])
    cfg = config(model, seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1), **p)
    agents = rand_agents(rng, model, n, activity=rng.choice([None, 1.0])) if rng.random() < 0.7 else None
    net = rand_network(rng, n) if rng.random() < 0.3 and n < 200 else None
    s = Sim(ck, exe, cfg, agents=agents, net=net)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    col = 1 if model == "ActivityDriven" else 2
    prev = np.array(s.agents(0))
    for t in range(1, steps + 1):
        rows = s.network(t)
        got = rk.matrix(rows)
        if len(rows) != n or any(len(set(nb)) != len(nb) for nb, _ in rows):
            ck.fail("shape", "iteration %d: network has duplicate entries or a wrong size" % t, s.replay())
            return
        x, act = prev[:, 0], prev[:, col]
        full = dict(p)
        full.setdefault("n_bots", 0)
        tol = 1e-9 * (1 + p["m"] + max(p.get("bot_m", [0])))
        want = rk.meanfield(x, act, full, lambda a: min(1.0, a))
        if np.all(np.abs(got - want) <= tol):
            ck.count("matches")
        else:
            other = rk.meanfield(x, act, full, lambda a: max(1.0, a))
            if np.all(np.abs(got - other) <= tol):
                ck.fail("activity-ignored", "n=%d iteration %d: the weights do not depend on the activities" % (n, t), s.replay())
                ck.count("matches_without_activity")
            else:
                i, j = np.unravel_index(int(np.argmax(np.abs(got - other))), got.shape)
                ck.fail("weight", "n=%d iteration %d: weight of %d on %d is %r, the formula gives %r (%r without the activity)"
                        % (n, t, j, i, got[i, j], want[i, j], other[i, j]), s.replay())
                return
        ck.count("matrices_checked")
        prev = np.array(s.agents(t))
    ck.evaluated((model, n, p["m"], p["homophily"], p["reciprocity"], p.get("n_bots"), agents is not None, net is not None, steps))
    if idx < 2:
        ck.sample({"n": n, "m": p["m"], "homophily": p["homophily"], "reciprocity": p["reciprocity"], "row0": [float(z) for z in got[0]]})
    s.clean()


def main():
    ck = Check("C15", "random mean-field runs (m, homophily, reciprocity, bots, initial networks of any shape); the recorded weight "
                      "matrix of every iteration is compared with the formula evaluated on the recorded opinions; distinct by parameters",
               ["the formula is the recurrence q_t = w (1 - q_(t-1)) of the code's documentation, evaluated in numpy"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 6000 if THOROUGH else 800
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("matrices_checked", 0) > 300, "matrices")
    return ck.finish()
