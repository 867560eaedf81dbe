"""C17: scalar Deffuant model (all-to-all)."""
import itertools
import math
import random

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *


def interact(x, i, j, mu, d):
    diff = x[i] - x[j]
    if abs(diff) < d:
        x[i] -= mu * diff
        x[j] += mu * diff


def reachable(x, mu, d, slack):
    """all states after exactly n interactions of pairs of distinct agents; if a difference is within `slack` of the
    threshold both outcomes are allowed (rounding)"""
    n = len(x)
    states = {tuple(x)}
    pairs = list(itertools.combinations(range(n), 2))
    for _ in range(n):
        nxt = set()
        for st in states:
            for i, j in pairs:
                near = abs(abs(st[i] - st[j]) - d) <= slack
                for dd in ((d - slack * 2, d + slack * 2) if near and slack else (d,)):
                    y = list(st)
                    interact(y, i, j, mu, dd)
                    nxt.add(tuple(y))
        states = nxt
    return states


def clusters(x, d, slack):
    """intervals of the opinion axis that cannot influence each other: consecutive gaps >= d (no chain closer than d)"""
    order = sorted(range(len(x)), key=lambda i: x[i])
    out = [[order[0]]] if order else []
    for a, b in zip(order, order[1:]):
        if abs(x[b] - x[a]) < d + slack:
            out[-1].append(b)
        else:
            out.append([b])
    return out


def one(ck, exe, rng, idx):
    small = rng.random() < 0.6
    n = rng.choice([2, 2, 3, 3, 4]) if small else rng.choice([5, 8, 20, 60, 65, 130])
    steps = rng.choice([1, 2, 6] + ([60] if n < 10 else []))
    mu = rng.choice([0.0, 0.1, 0.3, 0.5, 1.0, rng.random()])
    d = rng.choice([0.05, 0.2, 0.5, 1.0, 3.0, 10 ** rng.uniform(-6, 3)])
    agents = None
    slack = 1e-12
    if rng.random() < 0.8:
        k = rng.random()
        if k < 0.35:  # everything is exact in binary, with differences exactly equal to the threshold
            d, mu, slack = rng.choice([0.25, 0.5, 1.0]), rng.choice([0.0, 0.25, 0.5, 1.0]), 0.0
            agents = [[d * rng.choice([-2, -1, 0, 1, 2, -2, -1, 0, 1, 2, 0.5, -0.25])] for _ in range(n)]
            steps = min(steps, 2)
            if n > 4:
                steps, mu = 1, rng.choice([0.0, 0.5, 1.0])
        elif k < 0.6:  # around the threshold
            agents = [[d * rng.choice([0, 1, 2]) + rng.choice([0, 1e-9, -1e-9, 0.1 * d])] for _ in range(n)]
        else:
            agents = [[rng.uniform(-1, 1)] for _ in range(n)]
    cfg = config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1),
                 homophily_threshold=d, mu=mu)
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "Deffuant n=%d" % n, s.replay())
    xs = [[r[0] for r in s.agents(t)] for t in range(steps + 1)]
    net0 = s.network(0)
    for t in range(1, steps + 1):
        a, b = xs[t - 1], xs[t]
        if s.network(t) != net0:
            ck.fail("network-changed", "network_%d differs from network_0" % t, s.replay())
        if abs(math.fsum(a) - math.fsum(b)) > 1e-12 * n * (1 + max(map(abs, a))) * max(1, n):
            ck.fail("sum", "n=%d iteration %d: the sum of the opinions changes from %r to %r" % (n, t, math.fsum(a), math.fsum(b)), s.replay())
        for cl in clusters(a, d, slack):
            lo, hi = min(a[i] for i in cl), max(a[i] for i in cl)
            e = 1e-12 * (1 + abs(lo) + abs(hi))
            for i in cl:
                if not lo - e <= b[i] <= hi + e:
                    ck.fail("cluster", "n=%d iteration %d agent %d: opinion %r -> %r although only agents with opinions in "
                            "[%r, %r] can influence it (threshold %r)" % (n, t, i, a[i], b[i], lo, hi, d), s.replay())
            ck.count("clusters_checked")
        if n <= 4 and t <= 2:
            R = reachable(a, mu, d, slack)
            e = 1e-12 * (1 + max(map(abs, a)))
            if not any(all(abs(p - q) <= e for p, q in zip(r, b)) for r in R):
                ck.fail("reachable", "n=%d mu=%r threshold=%r: %r -> %r cannot be reached by %d pair interactions"
                        % (n, mu, d, a, b, n), s.replay())
            ck.count("steps_decoded")
        if a != b:
            ck.count("steps_with_interaction")
    ck.evaluated((n, mu, d, steps, tuple(xs[0])))
    if idx < 2:
        ck.sample({"n": n, "mu": mu, "threshold": d, "x0": xs[0][:5], "x1": xs[1][:5]})
    s.clean()


def tiny(ck, exe, rng, idx):
    """Two agents whose opinions differ in the last digits only."""
    mu, T = rng.choice([0.25, 0.5, 0.3, 0.1, 0.45]), rng.choice([1, 1, 2])
    c = rng.choice([-1, 1]) * 10 ** rng.uniform(-200, 200)
    diff = abs(c) * 2.0 ** -rng.randint(8, 46)
    d = diff * rng.choice([2.0, 1.1, 1e6])
    x = [c, c + diff]
    rng.shuffle(x)
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=T, n=2, c=0, homophily_threshold=d, mu=mu), agents=[[v] for v in x])
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "Deffuant n=2", s.replay())
    got = [v[0] for v in s.agents(T)]
    mid, half = x[0] + (x[1] - x[0]) / 2, (x[1] - x[0]) / 2 * (1 - 2 * mu) ** (2 * T)
    want = [mid - half, mid + half]
    if any(abs(g - w) > 2.0 ** -52 * abs(c) * (2 + 4 * T) for g, w in zip(got, want)):
        ck.fail("tiny", "mu=%r threshold=%r: %r -> %r after %d iterations, expected %r" % (mu, d, x, got, T, want), s.replay())
    ck.count("tiny_differences")
    ck.evaluated(("tiny", mu, T, tuple(x)))
    s.clean()


def halvings(d0, x, a, b):
    r = abs(x[a] - x[b]) / d0
    return None if r == 0 else math.log2(1 / r)


def frequency(ck, exe, rng, idx):
    """Only the agents a and b are closer than the threshold; mu=0.25 halves their difference at each interaction,
    so the number of interactions of this pair can be read off."""
    n = rng.choice([2, 3, 5, 9, 16]) if idx % 8 else rng.choice([70, 128])
    a, b = rng.sample(range(n), 2)
    if n > 16:
        steps, a = 20000, rng.choice([0, n - 1])
        b = rng.choice([i for i in range(n) if i != a])
    elif n <= 2:
        steps = 200
    else:
        steps = min(1500, 400 * (n - 1) // 2)
    d0 = 0.5
    agents = [[10.0 + 3 * i] for i in range(n)]
    agents[a], agents[b] = [0.25], [-0.25]
    cfg = config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=1, homophily_threshold=1.0, mu=0.25,
                 io={"n_output_agents": steps, "output_initial": False})
    s = Sim(ck, exe, cfg, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "Deffuant n=%d" % n, s.replay())
    x = [r[0] for r in s.agents(steps)]
    k = halvings(d0, x, a, b)
    if k is None or abs(k - round(k)) > 1e-6:
        ck.fail("frequency", "n=%d: difference of the pair is %r, not a power of 1/2" % (n, x[a] - x[b]), s.replay())
        return
    k = round(k)
    N, p = steps * n, 2.0 / (n * (n - 1))
    mean, sd = N * p, math.sqrt(N * p * (1 - p))
    if abs(k - mean) > 6.5 * sd + 1e-9:
        ck.fail("frequency", "n=%d: agents %d and %d interacted %d times in %d iterations, %.1f +- %.1f expected"
                % (n, a, b, k, steps, mean, sd), s.replay())
    for i in range(n):
        if i not in (a, b) and x[i] != agents[i][0]:
            ck.fail("cluster", "n=%d agent %d moved although nobody is within the threshold" % (n, i), s.replay())
    ck.count("pair_interactions_counted", k)
    ck.evaluated(("frequency", n, a, b))
    s.clean()


POOL = {}


def matching(ck, exe, rng, idx):
    """All agents are paired at random, only the two of a pair are closer than the threshold: the interactions of all
    pairs are counted, in total, per pair, and (over all runs) for special positions in the list of agents."""
    n = rng.choice([6, 10, 20, 33, 64, 100, 130] + ([256, 300] if idx % 8 == 0 else []))
    per = rng.choice([3, 8])  # interactions per pair
    steps = max(1, per * (n - 1) // 2)
    if n > 100:
        steps = 150
    mu = rng.choice([0.25, 0.1, 0.4, 0.75])
    f = abs(1 - 2 * mu)
    order = list(range(n))
    rng.shuffle(order)
    if rng.random() < 0.3:  # neighbours in the list
        order = list(range(n))
    agents = [[5000.0] for _ in range(n)]
    pairs = [(order[2 * c], order[2 * c + 1]) for c in range(n // 2)]
    for c, (a, b) in enumerate(pairs):
        agents[a], agents[b] = [3.0 * c + 0.25], [3.0 * c - 0.25]
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=1, homophily_threshold=1.0, mu=mu,
                            io={"n_output_agents": steps, "output_initial": False}),
            agents=agents, net="".join("%d, 0\n" % i for i in range(n)), timeout=120)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "Deffuant n=%d" % n, s.replay())
    x = [r[0] for r in s.agents(steps)]
    N, p = steps * n, 2.0 / (n * (n - 1))
    tot, chi = 0, 0.0
    for a, b in pairs:
        d = abs(x[a] - x[b]) / 0.5
        if d < 1e-9:
            return  # too many interactions to be counted
        k = math.log(d) / math.log(f)
        if abs(k - round(k)) > 1e-3:
            ck.fail("frequency", "n=%d mu=%r: difference of a pair is %r, not a power of %r" % (n, mu, x[a] - x[b], f), s.replay())
            return
        k = round(k)
        tot += k
        chi += (k - N * p) ** 2 / (N * p)
        lo, hi = min(a, b), max(a, b)
        with ck._lock:
            for what, yes in (("first", lo == 0), ("last", hi == n - 1), ("adjacent", hi == lo + 1), ("first-last", (lo, hi) == (0, n - 1)),
                              ("lower-half", hi < n // 2), ("upper-half", lo >= n // 2), ("even", lo % 2 == 0 and hi % 2 == 0)):
                for what in (what, what + ("-small" if n <= 100 else "-big")) if yes else ():
                    POOL.setdefault(what, []).append((k, N * p, s.replay()))
    mean = N * p * len(pairs)
    if abs(tot - mean) > 6.5 * math.sqrt(mean) + 2:
        ck.fail("frequency", "n=%d: %d interactions of the %d pairs in %d iterations, %.1f +- %.1f expected"
                % (n, tot, len(pairs), steps, mean, math.sqrt(mean)), s.replay())
    m = len(pairs)
    if N * p > 2 and m >= 10 and chi > m + 9 * math.sqrt(2 * m * (1 + 1 / (2 * N * p))) + 30:
        ck.fail("frequency", "n=%d: the interactions of %d pairs vary too much (chi^2 = %.1f)" % (n, m, chi), s.replay())
    for i in range(n):
        if agents[i][0] == 5000.0 and x[i] != 5000.0:
            ck.fail("cluster", "n=%d agent %d moved although nobody is within the threshold" % (n, i), s.replay())
    ck.count("pair_interactions_counted", tot)
    ck.evaluated(("matching", n, mu, steps, tuple(order)))
    s.clean()


def pooled(ck):
    for what, l in POOL.items():
        k, e = sum(a for a, _, _ in l), sum(b for _, b, _ in l)
        if abs(k - e) > 6.5 * math.sqrt(e) + 2:
            ck.fail("frequency", "%d interactions of %d pairs with positions '%s', %.1f expected" % (k, len(l), what, e), l[0][2])
        ck.count("positions_" + what, k)


def main():
    ck = Check("C17", "random scalar Deffuant runs: n<=4 decoded completely (all states reachable by exactly n pair interactions), "
                      "larger n through the conserved sum and the isolated intervals; plus runs in which one pair, or a random "
                      "matching of up to 300 agents, interacts and the interactions are counted; one iteration of 1100..3333 agents; distinct by (n, mu, threshold, steps, initial opinions)",
               ["interactions of distinct pairs, uniformly chosen (6.5 sigma)"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 8000 if THOROUGH else 900
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(N // 6)]
    pmap(lambda t: frequency(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(N // 9)]
    pmap(lambda t: matching(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(N // 30)]
    pmap(lambda t: touched(ck, exe, random.Random(t[1]), t[0], False), list(enumerate(seeds)))
    residues(ck)
    seeds = [ck.rng.getrandbits(60) for _ in range(N // 20)]
    pmap(lambda t: tiny(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pooled(ck)
    ck.require(ck.counters.get("steps_decoded", 0) > 200 and ck.counters.get("steps_with_interaction", 0) > 300, "steps")
    return ck.finish()
