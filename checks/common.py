import math
import os

import vlib
from vlib import config, Sim, pmap, THOROUGH

MODELS = ("DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant", "DeffuantVector")
NCOL = {"DeGroot": 1, "ActivityDriven": 3, "ActivityDrivenInertial": 4, "Deffuant": 1}


def rand_double(rng, scale=1.0):
    k = rng.random()
    if k < 0.7:
        return rng.uniform(-1, 1) * scale
    if k < 0.85:
        return rng.choice([-1, 1]) * scale * 10 ** rng.uniform(-8, 2)
    return float(rng.choice([0.0, 1.0, -1.0, 0.5, 0.1, -0.25])) * scale


def rand_network(rng, n, density=None, stochastic=False, self_loops=True, dup=False, wscale=1.0):
    """-> list of (incoming neighbours, weights)"""
    net = []
    for i in range(n):
        d = rng.random() if density is None else density
        nb = [j for j in range(n) if rng.random() < d and (self_loops or j != i)]
        rng.shuffle(nb)
        if dup and nb and rng.random() < 0.4:
            nb.append(rng.choice(nb))
        if stochastic:
            if not nb:
                nb = [rng.randrange(n)]
            w = [rng.uniform(0.05, 1) for _ in nb]
            s = math.fsum(w)
            w = [x / s for x in w]
        else:
            w = [rand_double(rng, wscale) for _ in nb]
        net.append((nb, w))
    return net


def rand_strong_network(rng, n):
    """row-stochastic, strongly connected and aperiodic"""
    perm = list(range(n))
    rng.shuffle(perm)
    nbs = [set() for _ in range(n)]
    for a in range(n):
        nbs[perm[a]].add(perm[(a + 1) % n])
    nbs[rng.randrange(n)].add(-1)
    net = []
    for i in range(n):
        s = nbs[i]
        if -1 in s:
            s.discard(-1)
            s.add(i)
        for j in range(n):
            if rng.random() < 0.25:
                s.add(j)
        l = list(s)
        rng.shuffle(l)
        w = [rng.uniform(0.1, 1) for _ in l]
        t = math.fsum(w)
        net.append((l, [x / t for x in w]))
    return net


def rand_agents(rng, model, n, dim=1, activity=None):
    rows = []
    for _ in range(n):
        if model in ("DeGroot", "Deffuant"):
            rows.append([rand_double(rng)])
        elif model == "DeffuantVector":
            rows.append([rng.randrange(2) for _ in range(dim)])
        else:
            a = rng.choice([0.0, 1.0, rng.random(), rng.random()]) if activity is None else activity
            r = rng.choice([1.0, rng.uniform(0.3, 3), rng.uniform(0.3, 3), 10 ** rng.uniform(-3, 3)])
            x = rand_double(rng)
            if model == "ActivityDriven":
                rows.append([x, a, r])
            else:
                rows.append([x, rand_double(rng), a, r])
    return rows


def section(model):
    return "Deffuant" if model == "DeffuantVector" else model


def rand_params(rng, model, n, bots=None, mean_weights=None, lattice=None):
    """Valid random parameters of a model (the [Model] section)."""
    if model == "DeGroot":
        return {"convergence": rng.choice([0.0, 0.0, 1e-9])}
    if model.startswith("Deffuant") and lattice is None and math.isqrt(n) ** 2 == n and n > 0:
        lattice = rng.random() < 0.5
    if model.startswith("Deffuant") and lattice:
        return dict(rand_params(rng, model, n, lattice=False), use_network=True)
    if model == "Deffuant":
        return {"homophily_threshold": rng.choice([0.05, 0.2, 0.7, 3.0]), "mu": rng.choice([0.0, 0.1, 0.3, 0.5, 1.0, rng.random()])}
    if model == "DeffuantVector":
        d = rng.randint(1, 12)
        return {"homophily_threshold": float(rng.randint(1, d + 2)), "mu": rng.choice([0.0, 0.5, 1.0, rng.random()]),
                "binary_vector": True, "dim": d}
    p = {"dt": rng.choice([0.01, 0.05, 0.2, 10 ** rng.uniform(-6, 0)]),
         "m": rng.choice([0, 1, 2, 3, 5, max(0, n - 1), n, n + 3, rng.randint(0, 2 * n + 1)] + ([1000] if n <= 20 else [])),
         "eps": rng.choice([0.01, 0.2, 0.9, 1.0 - 1e-6, 1e-6]), "gamma": rng.choice([rng.uniform(2.05, 4.0), rng.uniform(4, 12)]),
         "alpha": rng.choice([0.0, 0.5, 3.0, rng.uniform(0, 30)]),
         "homophily": rng.choice([0.0, 0.5, 2.0, -1.0, rng.uniform(-2, 2)]),
         "reciprocity": rng.choice([0.0, 0.5, 1.0, 0.3, rng.random(), 1.5]),
         "K": rng.choice([3.0, 0.5, 0.0, -1.0, rng.uniform(-20, 60)])}
    if rng.random() < 0.3:
        p["mean_activities"] = True
    if mean_weights if mean_weights is not None else rng.random() < 0.3:
        p["mean_weights"] = True
    if rng.random() < 0.5:
        p.update(reluctances=True, reluctance_mean=rng.uniform(0.5, 2), reluctance_sigma=rng.uniform(0.05, 0.5),
                 reluctance_eps=rng.uniform(0.01, 0.3), covariance_factor=rng.uniform(-0.95, 0.95))
    nb = bots if bots is not None else (rng.randint(1, n) if n and rng.random() < 0.4 else 0)
    if nb:
        extra = rng.choice([0, 0, 1, 4])
        p.update(n_bots=nb, bot_m=[rng.randint(0, n + 2) for _ in range(nb + extra)],
                 bot_activity=[rng.choice([0.0, 1.0, 0.5, rng.random()]) for _ in range(nb + extra)],
                 bot_opinion=[rng.uniform(-3, 3) for _ in range(nb + extra)],
                 bot_homophily=[rng.choice([0.0, 1.0, 0.7, -1.0, rng.uniform(-2, 2)]) for _ in range(nb + extra)])
    if model == "ActivityDrivenInertial":
        p["friction_coefficient"] = rng.choice([0.0, 0.5, 2.0, rng.uniform(0, 50)])
    return p


def size_steps(rng, sizes, steps, big=(64, 65, 100, 150), far=(40, 101, 150)):
    """(number of agents, iterations): mostly small, sometimes many agents, sometimes many iterations"""
    u = rng.random()
    if u < 0.08:
        return rng.choice(big), rng.choice([s for s in steps if s <= 3] or [1])
    if u < 0.16:
        return rng.choice([x for x in sizes if x <= 10]), rng.choice(far)
    return rng.choice(sizes), rng.choice(steps)


def rel(a, b):
    return abs(a - b) / max(1.0, abs(a), abs(b))


def same(a, b):
    return a == b or (a != a and b != b)


def finished_after(out):
    import re
    m = re.search(r"Finished after (\d+) iterations", out)
    return int(m.group(1)) if m else None


RESIDUES = {}  # (lattice, modulus, remainder) -> agents without interaction, expected, variance; of all runs


def residues(ck):
    """No class of indices takes part less often than the others, over all populations of touched()."""
    for (lattice, mod, res), (k, mean, var) in sorted(RESIDUES.items()):
        if abs(k - mean) > 7 * math.sqrt(var) + 5:
            ck.fail("interactions", "%sagents %d modulo %d: %d of them took part in no interaction of an iteration, %.1f +- %.1f expected"
                    % ("lattice, " if lattice else "", res, mod, k, mean, math.sqrt(var)))
        ck.count("index_classes")


def touched(ck, exe, rng, idx, lattice):
    """One iteration of a large population in which every interaction moves both agents: the number of agents that
    were not part of any interaction, in total and per block of the list, against (1 - 2/n)^n."""
    e = rng.choice([33, 40, 50, 64])
    n = e * e if lattice else rng.choice([1100, 1100, 2000, 2000, 3333, 5000] + ([12000] if THOROUGH else []))
    p = {"homophily_threshold": 1e9, "mu": rng.choice([0.1, 0.3, 0.5])}
    if lattice:
        p["use_network"] = True
    agents = [[rng.uniform(-1, 1)] for _ in range(n)]
    s = Sim(ck, exe, config("Deffuant", seed=rng.randint(0, 10**6), max_iterations=1, n=n, c=0, io={"n_output_agents": 1}, **p),
            agents=agents, net=None if lattice else "".join("%d, 0\n" % i for i in range(n)), timeout=120)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "Deffuant n=%d" % n, {"config": vlib.toml(s.cfg)})
    x = s.agents(1)
    q = (1 - 2.0 / n) ** n
    rest = [x[i][0] == agents[i][0] for i in range(n)]
    for name, part in [("all", rest)] + [("%d..%d" % (k * n // 8, (k + 1) * n // 8 - 1), rest[k * n // 8:(k + 1) * n // 8]) for k in range(8)]:
        m, k = len(part), sum(part)
        if abs(k - m * q) > 6.5 * math.sqrt(m * q * (1 - q)) + 2:
            ck.fail("interactions", "%d%s agents: %d of the agents %s took part in no interaction of an iteration, %.1f expected"
                    % (n, " lattice" if lattice else "", k, name, m * q), {"config": vlib.toml(s.cfg)})
    with ck._lock:
        for mod in (2, 3, 4, 5, 7, 8, 10, 16, 20, 32):
            for res in range(mod):
                part = rest[res::mod]
                a = RESIDUES.setdefault((lattice, mod, res), [0, 0.0, 0.0])
                a[0] += sum(part)
                a[1] += len(part) * q
                a[2] += len(part) * q * (1 - q)
    ck.count("large_populations")
    ck.evaluated(("touched", n, lattice, sum(rest)))
    s.clean()
