"""C08: -n and -a: a run starts in exactly the state of the files; deterministic models continue an interrupted run."""
import os
import random

import numpy as np
from vlib import rand_place, Check, Sim, build, config, pmap, THOROUGH, read_agents, read_network
from .common import *


def exact(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))


def file_text(rng, rows):
    """The documented format as somebody might write it by hand: with or without comment and blank lines, padding, a last line end."""
    w = rng.choice([0, 0, 5, 25])
    sep = rng.choice([",", ", "])
    out = []
    blank = rng.random() < 0.3  # blank lines between the rows
    for r in rows:
        if rng.random() < rng.choice([0, 0.2]):
            out.append("# a comment, 1, 2, 3")
        if blank and rng.random() < 0.2:
            out.append("")
        out.append(sep.join(str(x).rjust(w) for x in r))
    return rng.choice(["# header\n", ""]) + "\n".join(out) + rng.choice(["\n", "", "\n\n"])


def start(ck, exe, rng, idx):
    """the initial state is the state of the files; nothing of the configuration's own network/agents survives"""
    model = rng.choice(MODELS)
    n = rng.choice([1, 2, 3, 4, 9, 16, 30, 30, 100, 300])
    p = rand_params(rng, model, n, lattice=False)  # a lattice replaces the network of the file
    T = rng.choice([0, 1, 3])
    seed = rng.randint(0, 10**6)
    net = rand_network(rng, n, density=rng.choice([None, 0.0, 1.0]), dup=True) if rng.random() < 0.8 else None
    dim = p.get("dim", 1) if rng.random() < 0.6 else rng.choice([1, p.get("dim", 1) + rng.randint(1, 40)])  # the file decides
    agents = rand_agents(rng, model, n, dim=dim) if rng.random() < 0.8 else None
    if agents is not None and T == 0 and model != "DeffuantVector" and rng.random() < 0.4:  # any finite numbers
        agents = [[rng.choice([x, 5e-324, 1e-310, 1e-5, -1e-9, 1e300, -1.7e308, 1e-300, -0.0, rng.uniform(-1e9, 1e9)]) for x in r] for r in agents]
    if n > 50:
        p["mean_weights"] = False
        net = net and rand_network(rng, n, density=0.1, dup=True)
    cn = n if net is None else rng.choice([n, 1, 7, 50])  # the file decides
    if agents is not None and net is None:
        cn = n
    if p.get("n_bots", 0) > n:
        p["n_bots"] = 0
    lattice = model.startswith("Deffuant") and net is not None and rng.random() < 0.2 and int(n ** 0.5) ** 2 == n
    if lattice:
        p["use_network"] = True
    as_text = lambda rows: file_text(rng, rows)
    s = Sim(ck, exe, config(section(model), seed=seed, max_iterations=T, n=cn, c=rng.randint(0, max(0, cn - 1)), **p),
            net=net if net is None or rng.random() < 0.5 else as_text(
                [[i, len(nb)] + list(nb) + [repr(float(x)) for x in w] for i, (nb, w) in enumerate(net)]),
            agents=agents if agents is None or rng.random() < 0.5 else as_text(
                [[i] + [x if isinstance(x, int) else repr(x) for x in r] for i, r in enumerate(agents)]),
            place=dict(rand_place(rng), out="out"))
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    a0, n0 = s.agents(0), s.network(0)
    if len(a0) != n:
        ck.fail("size", "%s: %d agents, the files describe %d" % (model, len(a0), n), s.replay())
    if agents is not None and not exact(a0, [list(map(float, r)) for r in agents]):
        i = next((i for i in range(min(len(a0), n)) if a0[i] != [float(x) for x in agents[i]]), None)
        ck.fail("agents", "%s: agent %r starts as %r, the file has %r" % (model, i, a0[i:i + 1] if i is not None else None,
                                                                        agents[i:i + 1] if i is not None else None), s.replay())
    if net is not None and not p.get("mean_weights") and not lattice and n0 != [(list(x), [float(v) for v in w]) for x, w in net]:
        i = next((i for i in range(min(n, len(n0))) if n0[i] != (list(net[i][0]), [float(v) for v in net[i][1]])), None)
        ck.fail("network", "%s: row %r of the initial network is %r, the file has %r" % (model, i, n0[i:i + 1] if i is not None else len(n0),
                                                                                   net[i:i + 1] if i is not None else n), s.replay())
    if net is not None and agents is None and model in ("DeGroot", "Deffuant"):
        if any(abs(r[0] - i / n) > 1e-15 for i, r in enumerate(a0)):
            ck.fail("opinions", "%s: default opinions with a network file are %r" % (model, a0[:4]), s.replay())
    if agents is not None and T and model.startswith("Activity"):  # activities and reluctances stay those of the file
        c0 = NCOL[model] - 2
        if not exact([r[c0:] for r in s.agents(T)], [list(map(float, r[c0:])) for r in agents]):
            ck.fail("agents", "%s: after %d iterations activities or reluctances are not those of the file any more" % (model, T), s.replay())
    ck.count("initial_states_checked")
    ck.evaluated((model, n, T, net is not None, agents is not None, repr(agents)[:100], repr(net)[:100]))
    if idx < 2:
        ck.sample({"model": model, "n": n, "agents": agents[:2] if agents else None, "network": net[:2] if net else None})
    s.clean()


def many(ck, exe, rng, idx):
    """more agents than 16 bits can count"""
    model = MODELS[idx % len(MODELS)]
    n = 65536 + rng.randint(1, 9000)
    dim = rng.choice([1, 2])
    agents = rand_agents(rng, model, n, dim=dim)
    net = [([(i * 7 + 1) % n], [i / n]) if i % 3 else ([], []) for i in range(n)]
    p = {"DeffuantVector": {"binary_vector": True, "dim": dim}}.get(model, {})
    s = Sim(ck, exe, config(section(model), seed=rng.randint(0, 10**6), max_iterations=0, n=5, c=2, **p), net=net, agents=agents, timeout=300)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), {"model": model, "n": n})
    a0, n0 = s.agents(0), s.network(0)
    for what, got, want in (("agents", a0, [list(map(float, r)) for r in agents]), ("network", n0, net)):
        if len(got) != n or (not exact(got, want) if what == "agents" else got != [(list(a), list(b)) for a, b in want]):
            i = next((i for i in range(min(n, len(got))) if list(map(list, got[i:i + 1])) != list(map(list, want[i:i + 1]))), None)
            ck.fail(what, "%s with %d agents: the initial state has %d, the first that differs from the file is %r" % (model, n, len(got), i),
                    {"model": model, "n": n})
    ck.count("large_initial_states")
    ck.evaluated((model, n))
    s.clean()


def resume(ck, exe, rng, idx):
    """N + M iterations in one run are the same as N iterations, files, M iterations (models without randomness in a step)"""
    model = rng.choice(["DeGroot", "DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant2"])
    n = rng.choice([2, 3, 6, 12])
    N, M = rng.randint(1, 6), rng.randint(1, 6)
    seed = rng.randint(0, 10**6)
    if model == "Deffuant2":  # two agents: nothing is random
        n, sec, p = 2, "Deffuant", {"homophily_threshold": rng.choice([0.3, 2.0]), "mu": rng.choice([0.1, 0.4])}
    else:
        sec = model
        p = rand_params(rng, model, n, mean_weights=True, bots=rng.choice([0, 0, None]))
        if model == "DeGroot":
            p = {"convergence": 0.0}
        else:
            p["m"] = min(p["m"], 3)
            p["dt"] = 0.01
    agents = rand_agents(rng, {"Deffuant2": "Deffuant"}.get(model, model), n)
    net = rand_network(rng, n, stochastic=True) if model == "DeGroot" and rng.random() < 0.7 else None
    def cfg(T, sd=seed, num=0, cn=n):
        io = {"n_output_agents": 1, "n_output_network": 1, "start_numbering_from": num}
        return config(sec, seed=sd, max_iterations=T, n=cn, c=rng.randint(0, n - 1) if cn != n else min(2, n - 1), io=io, **p)
    full = Sim(ck, exe, cfg(N + M), net=net, agents=agents)
    first = Sim(ck, exe, cfg(N), net=net, agents=agents)
    for s in (full, first):
        if s.r.kind() != "ok":
            return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    nt = open(os.path.join(first.out, "network_%d.txt" % N), "rb").read()
    at = open(os.path.join(first.out, "opinions_%d.txt" % N), "rb").read()
    second = Sim(ck, exe, cfg(M, sd=rng.randint(0, 10**6), num=N, cn=rng.choice([n, n, 40])), net=nt, agents=at)
    if second.r.kind() != "ok":
        return ck.run_failed(second.r, "%s n=%d resumed from its own files" % (model, n), second.replay())
    for t in range(N, N + M + 1):
        a, b = full.agents(t), second.agents(t)
        if not exact(a, b):
            ck.fail("resume", "%s n=%d: opinions of iteration %d after resuming at %d are %r, without interruption %r"
                    % (model, n, t, N, b[:3], a[:3]), second.replay())
            break
        na, nb = full.network(t), second.network(t)
        if not (p.get("mean_weights") and t == N) and na != nb:
            ck.fail("resume", "%s n=%d: network of iteration %d after resuming at %d differs" % (model, n, t, N), second.replay())
            break
        ck.count("resumed_states_compared")
    ck.evaluated((model, n, N, M, "resume", repr(agents)[:100]))
    for s in (full, first, second):
        s.clean()


def main():
    ck = Check("C08", "random networks and agents in files (all models; configured sizes that differ from the file), the recorded initial "
                      "state compared with the files value by value; runs of N+M iterations compared with N, files, M iterations for "
                      "models whose steps are not random; distinct by model, sizes and file contents",
               ["with mean_weights and on the lattice the network file is replaced by the model's own network",
                "subnormal numbers are left to C05/C06"])
    exe = build("seldon:asan")["seldon:asan"]
    k = 8 if THOROUGH else 1
    for f, N in ((start, 900 * k), (resume, 250 * k)):
        seeds = [ck.rng.getrandbits(60) for _ in range(N)]
        pmap(lambda t: f(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pmap(lambda t: many(ck, exe, random.Random(t[1]), t[0]), list(enumerate(ck.rng.getrandbits(60) for _ in MODELS)))
    ck.require(ck.counters.get("initial_states_checked", 0) > 300 and ck.counters.get("resumed_states_compared", 0) > 200, "states")
    return ck.finish()
