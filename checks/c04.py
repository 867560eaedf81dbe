"""C04: simulations in one process do not influence each other, whether they run at the same time, in turn or one after another."""
import os
import random
import shutil

import vlib
from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *


def job(ck, exe, rng, model):
    """One simulation with its stand-alone result."""
    model = model or rng.choice(MODELS)
    n = rng.choice([1, 2, 3, 4, 6, 9, 12, 16, 30])
    T = rng.choice([1, 4, 10])
    p = rand_params(rng, model, n)
    if model == "DeGroot":
        p["convergence"] = 0.0
    cfg = config(section(model), seed=rng.randint(-10**6, 10**6), max_iterations=T, n=n, c=rng.randint(min(n - 1, 1), n), **p)
    net = rand_network(rng, n) if rng.random() < 0.3 else None
    agents = rand_agents(rng, model, n, dim=p.get("dim", 1)) if rng.random() < 0.3 else None
    s = Sim(ck, exe, cfg, net=net, agents=agents)
    if s.r.kind() != "ok":
        ck.run_failed(s.r, "%s n=%d alone" % (model, n), s.replay())
        return None
    return s


def read(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def group(ck, b, rng, idx):
    k = rng.choice([2, 3, 4, 8])
    model = rng.choice(MODELS) if rng.random() < 0.5 else None
    sims = [job(ck, b["seldon:asan"], rng, model) for _ in range(k)]
    if None in sims:
        return
    if rng.random() < 0.6:
        # the same configuration more than once: with a shared generator these would differ
        sims += [rng.choice(sims) for _ in range(2)]
    order = list(range(len(sims)))
    rng.shuffle(order)
    mode, flavour = MODES[idx % len(MODES)]
    d = ck.scratch()
    lines, outs = [], []
    for i, j in enumerate(order):
        s = sims[j]
        out = os.path.join(d, "o%d" % i)
        outs.append((out, s))
        f = lambda x: os.path.join(s.dir, x) if os.path.exists(os.path.join(s.dir, x)) else "-"
        lines.append(" ".join([os.path.join(s.dir, "c.toml"), f("n.txt"), f("a.txt"), out]))
    open(os.path.join(d, "list"), "w").write("\n".join(lines) + "\n")
    r = vlib.run([b["h_sim:" + flavour], mode, os.path.join(d, "list")], timeout=120)
    if r.kind() != "ok" or "DONE" not in r.out:
        return ck.run_failed(r, "%d simulations %s under %s" % (len(outs), mode, flavour), {"jobs": [s.replay() for _, s in outs]})
    for out, s in outs:
        got, want = read(out), read(s.out)
        ck.count("files_compared", len(want))
        if got != want:
            f = sorted(f for f in set(got) | set(want) if got.get(f) != want.get(f))
            ck.fail("differs-" + mode, "%s: a simulation (%s) does not write what it writes alone: %s" % (mode, s.cfg["simulation"], f[:4]),
                    {"jobs": [x.replay() for _, x in outs], "file": f[0]})
    ck.count("groups_%s_%s" % (mode, flavour))
    ck.evaluated((mode, flavour, tuple((s.cfg["simulation"]["model"], s.cfg["simulation"]["rng_seed"]) for _, s in outs)))
    if idx < 2:
        ck.sample({"mode": mode, "flavour": flavour, "models": [s.cfg["simulation"]["model"] for _, s in outs]})
    shutil.rmtree(d, ignore_errors=True)
    for s in set(sims):
        s.clean()


MODES = [("par", "tsan"), ("inter", "asan"), ("par", "tsan"), ("seq", "asan"), ("par", "asan"), ("inter", "asan")]


def main():
    ck = Check("C04", "groups of 2..10 random simulations of all models in one process: one thread each under ThreadSanitizer and "
                      "under AddressSanitizer, stepped in turn, and one after another; every file compared byte by byte with the "
                      "one of a process of its own. Distinct by mode, models and seeds",
               ["threads run complete simulations that share no object", "intermediate states are compared after every iteration"])
    b = build("seldon:asan", "h_sim:asan", "h_sim:tsan")
    N = 2400 if THOROUGH else 240
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: group(ck, b, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    for m in MODES:
        ck.require(ck.violations or ck.counters.get("groups_%s_%s" % m, 0) > 20, "groups %s %s" % m)
    return ck.finish()
