"""C09: DeGroot step: every iteration replaces all opinions at once by the weighted sums of the previous ones."""
import math
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *


def skewed(rng, k):
    w = [10.0 ** rng.uniform(-18, 0) for _ in range(k)]
    t = math.fsum(w)
    return [x / t for x in w]


def one(ck, exe, rng, idx):
    n, steps = size_steps(rng, [1, 2, 3, 5, 8, 13, 30], [1, 2, 5, 12], big=(64, 65, 100, 130, 260), far=(40, 101, 150, 260))
    mode = rng.choice(["file", "file", "file-stoch", "generated"])
    if idx % 60 == 59:  # many agents, some of them with very many neighbours
        n, steps, mode = rng.choice([600, 1100, 1500, 2100]), rng.choice([1, 2]), "hub"
    cfg = config("DeGroot", seed=rng.randint(-10**6, 10**6), max_iterations=steps, n=n, c=rng.randint(0, n - 1 if n > 1 else 0), convergence=0.0)
    net = agents = None
    if mode == "file":
        net = rand_network(rng, n, dup=True, wscale=rng.choice([1.0, 0.3, 0.3, 10 ** rng.uniform(-100 / steps, 100 / steps)]))
    elif mode == "hub":
        net = [([rng.randrange(n) for _ in range(k)], [rng.uniform(-1, 1) / k for _ in range(k)]) for k in [rng.randint(1, 3) for _ in range(n)]]
        for i in rng.sample(range(n), 3) + [0, n - 1]:
            k = rng.choice([n, n - 1, 513, rng.randint(100, 2 * n)])
            net[i] = (rng.sample(range(n), k) if k <= n else [rng.randrange(n) for _ in range(k)], [rng.uniform(-1, 1) / k for _ in range(k)])
    elif mode == "file-stoch":
        net = rand_network(rng, n, stochastic=True)
        if rng.random() < 0.3:  # weights of very different sizes, summing up to one
            net = [(nb, skewed(rng, len(nb))) for nb, _ in net]
    if rng.random() < 0.7:
        agents = rand_agents(rng, "DeGroot", n)
        if rng.random() < 0.2:
            k = 10 ** rng.uniform(-100, 100)
            agents = [[x * k] for x, in agents]
    s = Sim(ck, exe, cfg, net=net, agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "DeGroot n=%d" % n, s.replay())
    N0 = s.network(0)
    xs = [[r[0] for r in s.agents(t)] for t in range(steps + 1)]
    if net is not None and N0 != [(list(a), list(b)) for a, b in net]:
        ck.fail("network-changed", "the network of the run is not the one of the file", s.replay())
    stoch = all(abs(math.fsum(w) - 1) < 1e-9 and min(w) >= 0 for _, w in N0 if True) if all(w for _, w in N0) else False
    for t in range(steps):
        if s.network(t + 1) != N0:
            ck.fail("network-changed", "network_%d differs from network_0" % (t + 1), s.replay())
        lo, hi = min(xs[t]), max(xs[t])
        for i in range(n):
            terms = [w * xs[t][j] for j, w in zip(*N0[i])]
            if not sum(map(abs, terms)) < 1e300:  # beyond (or next to) the largest double: the sum is not defined
                ck.count("updates_beyond_doubles")
                continue
            want = math.fsum(terms)
            tol = 1e-13 * (1 + len(terms)) * (1e-300 + sum(map(abs, terms))) + 1e-300
            got = xs[t + 1][i]
            if not abs(got - want) <= tol:
                ck.fail("step", "n=%d iteration %d agent %d: opinion %r, weighted sum of the previous opinions %r"
                        % (n, t + 1, i, got, want), s.replay())
            if stoch and not (lo - 1e-9 * (1 + abs(lo)) <= got <= hi + 1e-9 * (1 + abs(hi))):
                ck.fail("hull", "n=%d iteration %d agent %d: %r leaves [%r, %r]" % (n, t + 1, i, got, lo, hi), s.replay())
            ck.count("agent_updates_checked")
        ck.count("steps_checked")
    ck.evaluated((mode, n, steps, agents is not None, tuple(len(a) for a, _ in N0)))
    if idx < 2:
        ck.sample({"mode": mode, "n": n, "x0": xs[0][:5], "x1": xs[1][:5]})
    s.clean()


def main():
    ck = Check("C09", "random networks (file: arbitrary/duplicate/negative weights, row-stochastic; generated) x random agent "
                      "files; every recorded step compared with the weighted sums of the previous recorded opinions; a case is "
                      "distinct by (source, n, steps, in-degrees)",
               ["the output files hold the exact state (shortest round-trip decimal)"])
    exe = build("seldon:asan")["seldon:asan"]
    import random
    N = 12000 if THOROUGH else 1200
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("steps_checked", 0) > 100, "steps")
    return ck.finish()
