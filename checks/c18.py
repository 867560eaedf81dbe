"""C18: scalar/vector Deffuant model on the square lattice."""
import math
import random

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *


def lattice(e):
    out = []
    for idx in range(e * e):
        i, j = idx % e, idx // e
        out.append(sorted([((i - 1) % e) + e * j, ((i + 1) % e) + e * j, i + e * ((j - 1) % e), i + e * ((j + 1) % e)]))
    return out


def one(ck, exe, rng, idx):
    """The interactions of one pair are counted: neighbours on the lattice interact, others never."""
    e = rng.choice([2, 3, 3, 4, 5, 8, 11, 17])
    n = e * e
    L = lattice(e)
    a = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
    if rng.random() < 0.6:
        b = rng.choice([x for x in L[a] if x != a])
    else:
        b = rng.choice([x for x in range(n) if x != a])
    mult = L[a].count(b)
    steps = 600
    agents = [[10.0 + 3 * i] for i in range(n)]
    agents[a], agents[b] = [0.25], [-0.25]
    cfg = config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=1, homophily_threshold=1.0, mu=0.25,
                 use_network=True, io={"n_output_agents": steps, "n_output_network": steps, "output_initial": True})
    net = rand_network(rng, n) if rng.random() < 0.3 else None
    s = Sim(ck, exe, cfg, agents=agents, net=net)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "lattice %dx%d" % (e, e), s.replay())
    for t in (0, steps):
        got = [sorted(nb) for nb, _ in s.network(t)]
        if got != L:
            i = next((i for i in range(min(n, len(got))) if got[i] != L[i]), len(got))
            ck.fail("lattice", "%dx%d: neighbours of %d are %r, not %r" % (e, e, i, got[i:i + 1], L[i:i + 1]), s.replay())
    x = [r[0] for r in s.agents(steps)]
    r = abs(x[a] - x[b]) / 0.5
    k = math.log2(1 / r) if r > 0 else float("nan")
    if not abs(k - round(k)) < 1e-6:
        ck.fail("frequency", "%dx%d: difference of the pair is %r, not a power of 1/2" % (e, e, x[a] - x[b]), s.replay())
        return
    k = round(k)
    N, p = steps * n, 2.0 / n * mult / 4.0
    mean, sd = N * p, math.sqrt(N * p * (1 - p))
    if (mult == 0 and k) or abs(k - mean) > 6.5 * sd + 1e-9:
        ck.fail("frequency" if mult else "not-neighbours", "%dx%d: agents %d and %d (neighbours %d times) interacted %d times in %d "
                "iterations, %.1f +- %.1f expected" % (e, e, a, b, mult, k, steps, mean, sd), s.replay())
    for i in range(n):
        if i not in (a, b) and x[i] != agents[i][0]:
            ck.fail("threshold", "agent %d moved although nobody is within the threshold" % i, s.replay())
    ck.count("pair_interactions_counted", k)
    ck.count("neighbour_pairs" if mult else "distant_pairs")
    ck.evaluated((e, a, b, net is not None))
    if idx < 2:
        ck.sample({"edge": e, "pair": [a, b], "neighbours": mult, "interactions": k, "expected": mean})
    s.clean()


POOL = {}


def matching(ck, exe, rng, idx):
    """a random matching of lattice neighbours, each pair within the threshold: all interactions are counted"""
    e = rng.choice([3, 4, 5, 7, 8, 10, 16])
    n = e * e
    L = lattice(e)
    steps = rng.choice([6, 16, 30])
    mu = rng.choice([0.25, 0.4, 0.75])
    f = abs(1 - 2 * mu)
    order = list(range(n))
    rng.shuffle(order)
    mate = {}
    for a in order:
        if a not in mate:
            free = [b for b in L[a] if b not in mate]
            if free:
                b = rng.choice(free)
                mate[a], mate[b] = b, a
    agents = [[10.0 + 3 * i] for i in range(n)]
    pairs = [(a, b) for a, b in mate.items() if a < b]
    for a, b in pairs:
        agents[a], agents[b] = [3.0 * a + 0.25 - 3 * n], [3.0 * a - 0.25 - 3 * n]
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=steps, n=n, c=0, homophily_threshold=1.0, mu=mu,
                            use_network=True, io={"n_output_agents": steps, "output_initial": False}), agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "lattice %dx%d" % (e, e), s.replay())
    x = [r[0] for r in s.agents(steps)]
    mean, tot = steps / 2.0, 0
    for a, b in pairs:
        d = abs(x[a] - x[b]) / 0.5
        if d < 1e-8:
            return
        k = math.log(d) / math.log(f)
        if abs(k - round(k)) > 1e-2:
            ck.fail("frequency", "%dx%d: difference of the pair is %r, not a power of %r" % (e, e, x[a] - x[b], f), s.replay())
            return
        k = round(k)
        tot += k
        if abs(k - mean) > 6.5 * math.sqrt(mean) + 9:
            ck.fail("frequency", "%dx%d: the neighbours %d and %d interacted %d times in %d iterations, %.1f expected"
                    % (e, e, a, b, k, steps, mean), s.replay())
        kind = "row" if b == a + 1 else "column" if b == a + e else "row-wrap" if b == a + e - 1 else "column-wrap"
        with ck._lock:
            for what in (kind,) + (("first", "first-%d" % (e > 9)) if a == 0 else ()) + (("last", "last-%d" % (e > 9)) if b == n - 1 else ()):
                POOL.setdefault(what, []).append((k, mean, s.replay()))
    if abs(tot - mean * len(pairs)) > 6.5 * math.sqrt(mean * len(pairs)) + 2:
        ck.fail("frequency", "%dx%d: %d interactions of the %d pairs in %d iterations, %.1f expected"
                % (e, e, tot, len(pairs), steps, mean * len(pairs)), s.replay())
    for i in range(n):
        if i not in mate and x[i] != agents[i][0]:
            ck.fail("threshold", "agent %d moved although no neighbour is within the threshold" % i, s.replay())
    ck.count("pair_interactions_counted", tot)
    ck.evaluated(("matching", e, mu, steps, tuple(order)))
    s.clean()


def directions(ck, exe, rng, idx):
    """Vectors: one interaction of isolated neighbours leaves both equal, in a way that may depend on which of the two was selected
    first; as both are selected first equally often, each of the two ends up as the winner equally often."""
    e = rng.choice([4, 8, 12, 16])
    n = e * e
    L = lattice(e)
    order = list(range(n))
    rng.shuffle(order)
    mate = {}
    for a in order:
        if a not in mate:
            free = [b for b in L[a] if b not in mate]
            if free:
                b = rng.choice(free)
                mate[a], mate[b] = b, a
    pairs = [(a, b) for a, b in mate.items() if a < b]
    dim, code = 40, {}
    agents = [None] * n
    for i in range(n):  # random vectors have a distance of about 20, the two of a pair have distance 1
        agents[i] = [rng.randrange(2) for _ in range(dim)]
    for a, b in pairs:
        agents[b] = list(agents[a])
        agents[b][rng.randrange(dim)] ^= 1
    if any(sum(x != y for x, y in zip(agents[a], agents[b])) <= 3 for a in range(n) for b in L[a] if mate.get(a) != b):
        return
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=2, n=n, c=0, homophily_threshold=1.5,
                            mu=rng.choice([1.0, 1.0, 0.5]), use_network=True, binary_vector=True, dim=dim), agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "lattice %dx%d" % (e, e), s.replay())
    x = s.agents(2)
    for i in range(n):
        if i not in mate and x[i] != agents[i]:
            ck.fail("threshold", "agent %d changed although no neighbour is within the threshold" % i, s.replay())
    for a, b in pairs:
        if x[a] == x[b]:
            kind = "row" if b == a + 1 else "column" if b == a + e else "row-wrap" if b == a + e - 1 else "column-wrap"
            with ck._lock:
                POOL.setdefault("winner-" + kind, []).append((int(x[a] == agents[a]), 0.5, s.replay()))
        if any(x[i] not in (agents[a], agents[b]) for i in (a, b)):
            ck.fail("threshold", "agents %d and %d took values none of them had" % (a, b), s.replay())
    ck.evaluated(("directions", e, tuple(order)))
    s.clean()


def pooled(ck):
    for what, l in POOL.items():
        k, m = sum(a for a, _, _ in l), sum(b for _, b, _ in l)
        if abs(k - m) > 6.5 * math.sqrt(m / (2 if what.startswith("winner") else 1)) + 2:
            ck.fail("frequency", "%d interactions of %d pairs of neighbours, kind '%s', %.1f expected" % (k, len(l), what, m), l[0][2])
        ck.count("kind_" + what, k)


def islands(ck, exe, rng, idx):
    """Random opinions on the lattice: sum conserved, and connected components of lattice neighbours within the threshold
    are the only agents that can exchange opinion."""
    vec = rng.random() < 0.4
    e = rng.choice([1, 2, 3, 4, 6])
    n = e * e
    L = lattice(e)
    dim = rng.choice([1, 4, 9])
    d = 1.0 if vec else rng.choice([0.05, 0.2, 0.4])
    p = {"homophily_threshold": rng.choice([1.5, 2.0, dim + 0.5]) if vec else d, "mu": rng.choice([0.1, 0.5, 1.0]), "use_network": True}
    if vec:
        p.update(binary_vector=True, dim=dim)
    d = p["homophily_threshold"]
    model = "DeffuantVector" if vec else "Deffuant"
    agents = [[rng.uniform(0, 1)] for _ in range(n)] if not vec else rand_agents(rng, model, n, dim=dim)
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=1, n=n, c=0, **p), agents=agents)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "lattice %dx%d" % (e, e), s.replay())
    a, b = s.agents(0), s.agents(1)

    def dist(u, v):
        return sum(1 for x, y in zip(u, v) if x != y) if vec else abs(u[0] - v[0])

    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i

    # an island grows when its hull touches a neighbour: iterate to a fixed point with the interval hull of each island
    changed = True
    while changed:
        changed = False
        hull = {}
        for i in range(n):
            r = find(i)
            lo, hi = hull.get(r, (a[i][:], a[i][:]))
            hull[r] = ([min(x, y) for x, y in zip(lo, a[i])], [max(x, y) for x, y in zip(hi, a[i])])
        for i in range(n):
            for j in L[i]:
                ri, rj = find(i), find(j)
                if ri == rj:
                    continue
                (l1, h1), (l2, h2) = hull[ri], hull[rj]
                # smallest possible distance between the two islands
                gap = [max(0.0, x - y, u - v) for x, y, u, v in zip(l1, h2, l2, h1)]
                m = sum(1 for g in gap if g > 0) if vec else gap[0]
                if m < d:
                    comp[ri] = rj
                    changed = True
                    break
            if changed:
                break
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    for g in groups.values():
        for k in range(len(a[0]) if n else 0):
            lo, hi = min(a[i][k] for i in g), max(a[i][k] for i in g)
            if any(not lo - 1e-12 <= b[i][k] <= hi + 1e-12 for i in g):
                ck.fail("island", "%dx%d: agents %r with opinions in [%r, %r] left this range although no other agent can "
                        "influence them" % (e, e, g[:6], lo, hi), s.replay())
        if not vec and abs(math.fsum(a[i][0] for i in g) - math.fsum(b[i][0] for i in g)) > 1e-11 * n:
            ck.fail("sum", "%dx%d: the sum of the opinions of the isolated agents %r changes" % (e, e, g[:6]), s.replay())
        ck.count("islands_checked")
    ck.evaluated((e, vec, dim, d, repr(a)[:200]))
    s.clean()


def reject(ck, exe, rng, idx):
    n = rng.choice([2, 3, 5, 6, 7, 8, 10, 15, 17, 24, 26, 99, 120])
    vec = rng.random() < 0.5
    p = {"use_network": True}
    if vec:
        p.update(binary_vector=True, dim=3)
    s = Sim(ck, exe, config("Deffuant", seed=1, max_iterations=1, n=n, c=0, **p))
    if s.r.kind() != "reject":
        ck.fail("not-square", "%d agents on a square lattice: run ends with %s (%s)" % (n, s.r.kind(), s.r.what()), s.replay())
    ck.count("rejected")
    ck.evaluated(("reject", n, vec))
    s.clean()


def main():
    ck = Check("C18", "lattice runs (edge 1..17): one pair, or a random matching of neighbours (edge 3..16), "
                      "within the threshold whose interactions are counted; random opinions with "
                      "isolated islands; one iteration of up to 4096 agents; numbers of agents that are not square; distinct by the lattice, the pair and the opinions",
               ["a pair of neighbours is chosen with probability 2/n * multiplicity/4 (6.5 sigma)"])
    exe = build("seldon:asan")["seldon:asan"]
    import vlib
    k = 8 if THOROUGH else 1
    for f, N in ((one, 250 * k), (islands, 300 * k), (matching, 120 * k), (directions, 100 * k), (reject, 30),
                 (lambda *a: touched(*a, True), 25 * k)):
        seeds = [ck.rng.getrandbits(60) for _ in range(N)]
        pmap(lambda t: f(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pooled(ck)
    residues(ck)
    ck.require(ck.counters.get("neighbour_pairs", 0) > 50 and ck.counters.get("distant_pairs", 0) > 30, "pairs")
    return ck.finish()
