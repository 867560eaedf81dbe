"""C16: bots."""
import random

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import contacts


def fixed(ck, exe, rng, idx):
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n, steps = size_steps(rng, [1, 2, 3, 5, 12], [1, 4, 9], big=(40, 65, 130))
    nb = rng.choice([1, n, rng.randint(1, n), 0])
    p = rand_params(rng, model, n, bots=nb)
    p["dt"] = rng.choice([0.01, 0.01, 0.2, 1e-13])
    if nb == 0:  # lists without bots
        p.update(n_bots=0, bot_m=[1], bot_activity=[1.0], bot_opinion=[7.0], bot_homophily=[0.5])
    if rng.random() < 0.2 and nb:
        for k in ("bot_m", "bot_activity", "bot_homophily"):
            p.pop(k)  # defaults
        p["bot_homophily"] = [p["homophily"]] * nb
        del p["bot_homophily"]
    cfg = config(model, seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1), **p)
    agents = rand_agents(rng, model, n) if rng.random() < 0.4 else None
    col = 1 if model == "ActivityDriven" else 2
    if agents is not None and rng.random() < 0.4:  # bots that nothing moves, away from their opinion
        for a in agents[:nb]:
            a[0] = 0.0
            if model == "ActivityDrivenInertial":
                a[1] = 0.0
            a[col] = rng.choice([0.0, a[col]])
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d n_bots=%d" % (model, n, nb), s.replay())
    free_moves = 0
    x0 = s.agents(0)
    prev = x0
    for t in range(steps + 1):
        x = s.agents(t)
        for b in range(nb):
            if t == 0 and agents is not None:
                continue
            if x[b][0] != p["bot_opinion"][b]:
                ck.fail("opinion", "iteration %d: bot %d of %d has opinion %r, not %r" % (t, b, nb, x[b][0], p["bot_opinion"][b]), s.replay())
            if agents is None and "bot_activity" in p and x[b][col] != p["bot_activity"][b]:
                ck.fail("activity", "iteration %d: bot %d has activity %r, not %r" % (t, b, x[b][col], p["bot_activity"][b]), s.replay())
            ck.count("bot_states_checked")
        if any(r[col:] != q[col:] for r, q in zip(x, x0)):
            ck.fail("activity", "iteration %d: activities or reluctances are not those of the start any more" % t, s.replay())
        for i in range(nb, n):
            if len(p["bot_opinion"]) > i and t == 0 and x[i][0] == p["bot_opinion"][i]:
                ck.fail("not-a-bot", "agent %d is treated as a bot although n_bots=%d" % (i, nb), s.replay())
            if t and x[i][0] != prev[i][0]:
                free_moves += 1
        prev = x
    ck.count("moves_of_other_agents", free_moves)
    if nb < n and not free_moves and p["dt"] > 1e-3 and any(abs(x0[i][0]) > 1e-6 for i in range(nb, n)):
        ck.fail("not-a-bot", "n_bots=%d of %d agents, but no other agent ever moves" % (nb, n), s.replay())
    ck.evaluated((model, n, nb, steps, agents is not None, repr(p.get("bot_opinion"))))
    if idx < 2:
        ck.sample({"n": n, "params": p})
    s.clean()


def stats(ck, exe, rng, idx):
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n = rng.choice([3, 4, 5, 6])
    nb = rng.randint(1, n)
    extra = rng.choice([0, 1, 3])
    T = 40000 if THOROUGH else 12000
    hs = [0.0, 1.0, 2.0, -1.0, 0.5]
    p = {"dt": 1e-12, "m": rng.choice([1, 2, 3, 4, n - 1, n + 1]), "homophily": rng.choice(hs), "reciprocity": rng.choice([0.0, 0.0, 0.5]),
         "alpha": 1.0, "K": 1.0, "eps": 0.2, "gamma": 2.1, "n_bots": nb,
         "bot_m": [rng.choice([0, 1, 2, n - 1, n + 1]) for _ in range(nb + extra)],
         "bot_activity": [rng.choice([0.0, 1.0, 0.5, 0.2]) for _ in range(nb + extra)],
         "bot_opinion": [rng.uniform(-1, 1) for _ in range(nb + extra)],
         "bot_homophily": [rng.choice(hs) for _ in range(nb + extra)]}
    r = contacts.experiment(ck, exe, model, rng, n, p, None, T, "%s n=%d bots=%d" % (model, n, nb))
    if r:
        for b in range(nb):
            if r["agents"][b] != [p["bot_opinion"][b], p["bot_activity"][b]]:
                ck.fail("opinion", "bot %d starts with opinion and activity %r" % (b, r["agents"][b]), {"params": p})
        ck.evaluated(("stats", model, n, nb, repr(p)))


def main():
    ck = Check("C16", "random runs with 0..n bots (parameter lists longer than n_bots, defaults, agent files), bot states compared at "
                      "every iteration; contact counts of populations with bots compared with exact probabilities; distinct by parameters",
               ["bots are the first n_bots agents", "with an agent file the opinions of iteration 0 are those of the file"])
    b = build("seldon:asan", "h_sim:asan")
    k = 8 if THOROUGH else 1
    seeds = [ck.rng.getrandbits(60) for _ in range(600 * k)]
    pmap(lambda t: fixed(ck, b["seldon:asan"], random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(60 * k)]
    pmap(lambda t: stats(ck, b["h_sim:asan"], random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("bot_states_checked", 0) > 1000, "bot states")
    return ck.finish()
