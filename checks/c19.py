"""C19: binary vector Deffuant model."""
import itertools
import math
import random

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from .contacts import btest


def ham(u, v):
    return sum(1 for a, b in zip(u, v) if a != b)


def reachable(x, thr):
    """all states after exactly n interactions of pairs of distinct agents"""
    n = len(x)
    states = {x}
    for _ in range(n):
        nxt = set()
        for st in states:
            for i, j in itertools.combinations(range(n), 2):
                if ham(st[i], st[j]) < thr:
                    for v in itertools.product(*[(p,) if p == q else (p, q) for p, q in zip(st[i], st[j])]):
                        y = list(st)
                        y[i] = y[j] = v
                        nxt.add(tuple(y))
                else:
                    nxt.add(st)
        states = nxt
    return states


TAKEN = {}  # (mu, what) -> how often the first agent has changed; it should be like a coin


def one(ck, exe, rng, idx):
    n = rng.choice([2, 2, 3, 4, 8, 20])
    dim = rng.choice([1, 2, 3, 5, 17] + ([31, 32, 33, 64, 65, 130, 300] if n == 2 else [40] if n < 8 else []))
    if n in (3, 4) and rng.random() < 0.6:
        dim = rng.choice([1, 2, 3] if n == 3 else [1, 2])
    thr = rng.choice([1.0, 0.2, 1.5, 2.0, float(dim), dim + 1.0, dim / 2 + 0.25])
    mu = rng.choice([0.0, 0.5, 1.0, rng.random()])
    steps = rng.choice([1, 2, 5])
    cfg = config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1),
                 homophily_threshold=thr, mu=mu, binary_vector=True, dim=dim)
    agents = rand_agents(rng, "DeffuantVector", n, dim=dim) if rng.random() < 0.7 else None
    if agents and rng.random() < 0.4:
        base = agents[0]
        for a in agents[1:]:  # close to each other
            a[:] = [b ^ (rng.random() < 1.5 / dim) for b in base]
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "vector Deffuant n=%d" % n, s.replay())
    xs = [s.agents(t) for t in range(steps + 1)]
    for t, x in enumerate(xs):
        if len(x) != n or any(len(v) != dim or any(b not in (0, 1) for b in v) for v in x):
            ck.fail("binary", "iteration %d: an opinion is not a vector of %d zeros and ones" % (t, dim), s.replay())
            return
    if agents is not None and xs[0] != agents:
        ck.fail("initial", "the run does not start from the agents of the file", s.replay())
    for t in range(1, steps + 1):
        a, b = xs[t - 1], xs[t]
        # agents that are far from everybody (in every way the others can look like) cannot change
        comp = list(range(n))
        groups = [[i] for i in range(n)]
        merged = True
        while merged:
            merged = False
            for g, h in itertools.combinations(groups, 2):
                # coordinates where g can have value set Sg and h Sh; the smallest possible distance
                dmin = 0
                for k in range(dim):
                    sg, sh = {a[i][k] for i in g}, {a[i][k] for i in h}
                    if not sg & sh:
                        dmin += 1
                if dmin < thr:
                    groups.remove(g)
                    groups.remove(h)
                    groups.append(g + h)
                    merged = True
                    break
        for g in groups:
            for k in range(dim):
                vals = {a[i][k] for i in g}
                if any(b[i][k] not in vals for i in g):
                    ck.fail("threshold", "iteration %d: coordinate %d of agents %r takes a value nobody within the threshold %r has"
                            % (t, k, g[:6], thr), s.replay())
            ck.count("groups_checked")
        if n == 2:
            if ham(a[0], a[1]) < thr:
                if b[0] != b[1]:
                    ck.fail("no-agreement", "distance %d < threshold %r, but the two agents differ after interacting: %r %r"
                            % (ham(a[0], a[1]), thr, b[0], b[1]), s.replay())
                con = [k for k in range(dim) if a[0][k] != a[1][k]]
                ck.count("contested_coordinates", len(con))
            elif a != b:
                ck.fail("threshold", "distance %d >= threshold %r, but the opinions change" % (ham(a[0], a[1]), thr), s.replay())
            ck.count("pairs_decoded")
        if n in (3, 4):
            # some set of agents interacted last: at least one pair within the threshold ends up equal, if any pair can interact
            pairs = list(itertools.combinations(range(n), 2))
            if thr > dim and not any(b[i] == b[j] for i, j in pairs):
                ck.fail("no-agreement", "n=%d iteration %d: nobody agrees after interactions of all pairs allowed" % (n, t), s.replay())
        if (n == 3 and dim <= 3) or (n == 4 and dim <= 2):
            if tuple(map(tuple, b)) not in reachable(tuple(map(tuple, a)), thr):
                ck.fail("reachable", "n=%d threshold=%r: %r -> %r cannot be reached by %d pair interactions" % (n, thr, a, b, n), s.replay())
            ck.count("steps_decoded")
        if a != b:
            ck.count("steps_with_change")
        ck.count("steps_checked")
    ck.evaluated((n, dim, thr, mu, steps, repr(xs[0])[:300]))
    if idx < 2:
        ck.sample({"n": n, "dim": dim, "threshold": thr, "x0": xs[0][:2], "x1": xs[1][:2]})
    s.clean()


def coins(ck, exe, rng, mu):
    """two agents that interact once: which of them takes the value of the other"""
    dim = rng.choice([1, 2, 5, 9, 40])
    a = rand_agents(rng, "DeffuantVector", 2, dim=dim)
    if a[0] == a[1]:
        a[1] = [1 - x for x in a[1]]
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**9), max_iterations=1, n=2, c=1, homophily_threshold=dim + 1.0, mu=mu,
                            binary_vector=True, dim=dim), agents=a)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "vector Deffuant, two agents", s.replay())
    b = s.agents(1)
    con = [k for k in range(dim) if a[0][k] != a[1][k]]
    with ck._lock:  # coordinates of one interaction may be correlated: one coin of every kind
        for what, k in {("%d" % k if k < 3 else "with %d bits" % k.bit_length()): k for k in con}.items():
            TAKEN.setdefault((mu, "coordinate " + what), []).append(b[0][k] == a[1][k])
        for what, k in (("first", con[0]), ("last", con[-1]), ("value %d at the first" % a[1][con[0]], con[0])):
            TAKEN.setdefault((mu, "%s contested coordinate" % what), []).append(b[0][k] == a[1][k])
    s.clean()


def main():
    ck = Check("C19", "random binary vector runs (dimension 1..17, thresholds around the distances); two agents, and three or four "
                      "with short vectors, are decoded completely, more agents through the groups that cannot interact; distinct by parameters and initial vectors",
               ["coins are rejected with an error below 1e-12"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 8000 if THOROUGH else 1000
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pmap(lambda t: coins(ck, exe, random.Random(t[1]), t[0]),
         [(mu, ck.rng.getrandbits(60)) for mu in (0.0, 0.5, 1.0) for _ in range(4000 if THOROUGH else 600)])
    for (mu, what), l in sorted(TAKEN.items()):
        p = btest(sum(l), len(l), 0.5)
        if p < 1e-12:
            # known: the value of the agent with the larger index is taken with probability (1 - mu) / 2 only
            known = mu > 0 and btest(sum(l), len(l), (1 - mu) / 2) > 1e-12
            ck.fail("lower-index-preferred" if known else "one-sided",
                    "mu=%g, %s: in %d of %d cases the first agent takes the value of the second (p=%.2g)" % (mu, what, sum(l), len(l), p))
        ck.count("coins", len(l))
    # both agents influence each other
    cfg = config("Deffuant", seed=ck.rng.randint(0, 10**6), max_iterations=1, n=2, c=0, homophily_threshold=5000.0, mu=0.5,
                 binary_vector=True, dim=4000)
    s = Sim(ck, exe, cfg)
    if s.r.kind() == "ok":
        a, b = s.agents(0), s.agents(1)
        con = [k for k in range(4000) if a[0][k] != a[1][k]]
        first = sum(1 for k in con if b[0][k] == a[0][k])
        if not con or first == 0 or first == len(con):
            ck.fail("one-sided", "%d contested coordinates, %d keep the value of the first agent" % (len(con), first), s.replay())
        ck.evaluated("two-sided")
    else:
        ck.run_failed(s.r, "vector Deffuant dim=4000", s.replay())
    ck.require(ck.counters.get("steps_with_change", 0) > 200 and ck.counters.get("pairs_decoded", 0) > 100, "steps")
    return ck.finish()
