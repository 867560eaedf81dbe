"""C13: contact network of every iteration of the activity driven models (probabilistic networks)."""
import random

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *


def structure(ck, s, net, n, m_of, activity, r, label):
    """Necessary conditions on one recorded network. Edge j -> i (j contacts/influences i) is entry j in row i."""
    out = [set() for _ in range(n)]
    if len(net) != n:
        ck.fail("size", "%s: network has %d rows, not %d" % (label, len(net), n), s.replay())
        return
    for i, (nb, w) in enumerate(net):
        if i in nb:
            ck.fail("self-contact", "%s: agent %d is connected to itself" % (label, i), s.replay())
        if len(set(nb)) != len(nb):
            ck.fail("duplicate-contact", "%s: agent %d has duplicate neighbours %r" % (label, i, nb), s.replay())
        if any(x != 1.0 for x in w):
            ck.fail("weight", "%s: agent %d has weights %r" % (label, i, w), s.replay())
        if any(j < 0 or j >= n for j in nb):
            ck.fail("out-of-range", "%s: agent %d has neighbours %r" % (label, i, nb), s.replay())
            return
        for j in nb:
            out[j].add(i)
    for i in range(n):
        full = min(m_of[i], n - 1)
        unrec = [j for j in out[i] if i not in out[j]]
        if len(unrec) > full:
            ck.fail("too-many-contacts", "%s: agent %d has %d contacts that are not reciprocal, m=%d" % (label, i, len(unrec), m_of[i]), s.replay())
        if unrec and len(out[i]) < full:
            ck.fail("too-few-contacts", "%s: agent %d is active and has only %d outgoing edges, m=%d" % (label, i, len(out[i]), m_of[i]), s.replay())
        if activity[i] >= 1.0 and len(out[i]) < full:
            ck.fail("too-few-contacts", "%s: agent %d (activity 1) has only %d outgoing edges, m=%d" % (label, i, len(out[i]), m_of[i]), s.replay())
        if activity[i] <= 0.0 and unrec:
            ck.fail("inactive-contacts", "%s: agent %d has activity 0 and contacts %r" % (label, i, unrec), s.replay())
        if activity[i] <= 0.0:
            # everything it has must be feedback: the other one has to be active and have contacted it
            bad = [j for j in out[i] if activity[j] <= 0.0]
            if bad:
                ck.fail("inactive-contacts", "%s: agents %d and %r have activity 0 and are connected" % (label, i, bad), s.replay())
        if r == 0.0:
            if len(out[i]) not in (0, full) or (activity[i] >= 1.0 and len(out[i]) != full) or (activity[i] <= 0 and out[i]):
                ck.fail("contacts-r0", "%s: without reciprocity agent %d (activity %r) has %d outgoing edges, m=%d"
                        % (label, i, activity[i], len(out[i]), m_of[i]), s.replay())
        if r >= 1.0 and unrec:
            ck.fail("not-reciprocal", "%s: reciprocity 1 but %d -> %r is not reciprocated" % (label, i, unrec), s.replay())
        ck.count("edges_seen", len(out[i]))
        ck.count("active_agents_seen", 1 if unrec else 0)
    ck.count("mutual_pairs_seen", sum(1 for i in range(n) for j in out[i] if i in out[j]) // 2)
    # a mutual pair needs a contact of at least one of the two, so sum over pairs <= sum over m (of agents that can be active)
    pairs = sum(1 for i in range(n) for j in range(i) if j in out[i] or i in out[j])
    cap = sum(min(m_of[i], n - 1) for i in range(n) if activity[i] > 0 and out[i])
    if pairs > cap:
        ck.fail("too-many-contacts", "%s: %d connected pairs, the active agents can only make %d contacts" % (label, pairs, cap), s.replay())
    ck.count("networks_checked")


def one(ck, exe, rng, idx):
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n, steps = size_steps(rng, [1, 2, 3, 4, 5, 8, 15, 40], [2, 5, 10], big=(64, 65, 100, 140, 260))
    p = rand_params(rng, model, n, mean_weights=False, bots=rng.choice([0, 0, None]) if n else 0)
    if idx % 12 == 5:  # a few agents with different numbers of contacts
        n, steps = rng.choice([2, 2, 3, 4]), 12
        p = rand_params(rng, model, n, mean_weights=False, bots=rng.randint(1, n))
        p.update(m=rng.choice([0, 1, 2, 5]), bot_m=[rng.choice([0, 0, 1, 3]) for _ in p["bot_m"]], bot_activity=[rng.choice([1.0, 1.0, 0.5]) for _ in p["bot_m"]])
    p["dt"] = rng.choice([0.01, 0.05])
    p["K"], p["alpha"] = 2.0, 1.0
    act = rng.choice([None, 0.0, 1.0, "mix", "mix"])
    agents = None
    if act is not None:
        agents = rand_agents(rng, model, n, activity=None if act == "mix" else act)
    if rng.random() < 0.2 and agents is not None:
        for a in agents:
            a[0] = 0.5  # all agents agree: the homophily weights are large
    cfg = config(model, seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1), **p)
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    nb = p.get("n_bots", 0)
    m_of = [p["bot_m"][i] if i < nb else p["m"] for i in range(n)]
    col = 1 if model == "ActivityDriven" else 2
    shapes = []
    for t in range(1, steps + 1):
        activity = [a[col] for a in s.agents(t)]
        net = s.network(t)
        structure(ck, s, net, n, m_of, activity, p["reciprocity"], "n=%d iteration %d" % (n, t))
        shapes.append(hash(str(net)))
    ck.evaluated((model, n, p["m"], p["reciprocity"], nb, act, tuple(shapes)))
    if idx < 2:
        ck.sample({"model": model, "n": n, "m": p["m"], "reciprocity": p["reciprocity"], "last_network": s.network(steps)[:4]})
    s.clean()


def fresh(ck, exe, rng, idx):
    """every agent is active and chooses uniformly: the same network twice has a probability below 14^-15 per pair of iterations"""
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n = rng.choice([15, 20, 33])
    steps = rng.choice([20, 60, 130, 260, 260, 520] + ([1100] if THOROUGH else []))
    m = rng.randint(1, n - 2)
    p = {"dt": 0.01, "m": m, "homophily": 0.0, "reciprocity": rng.choice([0.0, 0.5]), "K": 1.0, "alpha": 1.0}
    s = Sim(ck, exe, config(model, seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=2, **p),
            agents=rand_agents(rng, model, n, activity=1.0))
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    seen = {}
    for t in range(0, steps + 1):
        key = repr(s.network(t))
        if key in seen:
            ck.fail("repeated-network", "n=%d m=%d: iterations %d and %d have the same network" % (n, m, seen[key], t), s.replay())
            break
        seen[key] = t
    ck.count("fresh_networks", len(seen))
    ck.evaluated(("fresh", model, n, m, steps, idx))
    s.clean()


def contact_many(ck, exe, rng, idx):
    """a few active agents with very many contacts"""
    model = rng.choice(["ActivityDriven", "ActivityDrivenInertial"])
    n = rng.choice([600, 1100, 1500, 2500])
    m = rng.choice([n - 1, n - 2, n // 2, n + 5, 300, 1030])
    p = {"dt": 0.01, "m": m, "homophily": rng.choice([0.0, 0.5, -1.0]), "reciprocity": rng.choice([0.0, 0.5, 1.0]), "K": 0.5, "alpha": 1.0}
    agents = rand_agents(rng, model, n, activity=0.0)
    col = 1 if model == "ActivityDriven" else 2
    if idx % 7 == 6:  # everybody contacts many others
        n, m = 1100, rng.choice([300, 120])
        p["m"] = m
        agents = rand_agents(rng, model, n, activity=1.0)
    for i in rng.sample(range(n), 3) + [rng.choice([0, n - 1])]:
        agents[i][col] = 1.0
    if rng.random() < 0.3:
        nb = rng.randint(1, 3)
        p.update(n_bots=nb, bot_m=[rng.choice([n - 1, m, 1023, 3]) for _ in range(nb)], bot_activity=[1.0] * nb,
                 bot_opinion=[0.1 * i for i in range(nb)], bot_homophily=[0.0] * nb)
    s = Sim(ck, exe, config(model, seed=rng.randint(0, 10**6), max_iterations=1, n=n, c=0, **p), agents=agents, net="".join("%d, 0\n" % i for i in range(n)),
            timeout=120)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    nb = p.get("n_bots", 0)
    structure(ck, s, s.network(1), n, [p["bot_m"][i] if i < nb else m for i in range(n)], [a[col] for a in s.agents(1)], p["reciprocity"],
              "n=%d m=%d" % (n, m))
    ck.count("large_contact_lists")
    ck.evaluated(("many", model, n, m, p["reciprocity"], nb, idx))
    s.clean()


def main():
    ck = Check("C13", "random runs of both activity driven models (m from 0 to above n, reciprocity 0/0.3/0.5/1, agents with "
                      "activity 0/1/between, bots, agreeing agents); every recorded contact network is checked; distinct by the "
                      "parameters and the sequence of networks",
               ["|homophily| <= 2, so no contact weight underflows to zero"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 8000 if THOROUGH else 900
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(N // 15)]
    pmap(lambda t: fresh(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(N // 60)]
    pmap(lambda t: contact_many(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("active_agents_seen", 0) > 500 and ck.counters.get("mutual_pairs_seen", 0) > 200, "contacts")
    return ck.finish()
