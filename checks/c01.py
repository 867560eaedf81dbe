"""C01: a run that starts from valid settings and files ends normally, without any memory error or undefined behaviour."""
import glob
import os
import random
import re

import vlib
from vlib import rand_place, Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import cfg as C


def wide(ck, exe, rng, idx, wrapper=(), small=False):
    model = rng.choice(MODELS)
    n = rng.choice([1, 2, 2, 3, 4, 7, 16, 17, 50] + ([] if small else [0, 150]))
    T = rng.choice([0, 1, 2, 5, 20]) if not small else rng.choice([1, 2])
    p = rand_params(rng, model, n, bots=rng.choice([0, 1, n, n + 1, n + 5]) if rng.random() < 0.4 and model.startswith("A") else None)
    wild = rng.random() < 0.2
    if wild and model.startswith("A"):
        for k in rng.sample(["dt", "K", "alpha", "homophily", "reciprocity", "gamma", "eps"], 2):
            p[k] = {"dt": rng.choice([1e-300, 1e5, 1e300]), "K": rng.choice([1e300, -1e5]), "alpha": rng.choice([1e5, 1e300]),
                    "homophily": rng.choice([-50.0, 50.0, 1e4, -1e4]), "reciprocity": rng.choice([5.0, 1e300]),
                    "gamma": rng.choice([2.0000001, 60.0]), "eps": rng.choice([1e-12, 1.0, 3.0])}[k]
    if wild and model == "DeGroot":
        p["convergence"] = rng.choice([1e300, 1e-320])
    if model == "DeffuantVector" and rng.random() < 0.3:
        d = rng.choice([1, 64, 500])
        p.update(dim=d, homophily_threshold=float(rng.choice([0.5, d, 1e9])))
    if model == "Deffuant" and rng.random() < 0.2:
        p["use_network"] = True
    if model == "DeffuantVector" and rng.random() < 0.1:
        p["use_network"] = True
    square = p.get("use_network")
    if square:
        n = rng.choice([1, 4, 9, 16, 49])
    c = rng.choice([0, 1, 2, max(0, n - 1), n, n + 3, 1000, 10**12, 2**62])
    io = {"n_output_agents": rng.choice([None, 1, 2, 3, 1000, 10**12]), "n_output_network": rng.choice([None, 1, 2, 10**12]),
          "print_progress": rng.random() < 0.3, "output_initial": rng.random() < 0.8,
          "start_output": rng.choice([1, 2, 10, 10**12]), "start_numbering_from": rng.choice([0, 3, 10**9])}
    net = agents = None
    if not square and n > 0:
        if rng.random() < 0.4:
            net = rand_network(rng, n, density=rng.choice([0.0, None, 1.0]), dup=True, wscale=rng.choice([1.0, 1e200, 1e-310]))
        if rng.random() < 0.4:
            agents = rand_agents(rng, model, n, dim=p.get("dim", 1))
    cfg = config(section(model), seed=rng.randint(-2**31, 2**31 - 1), max_iterations=T, n=n, c=c, io=io, **p)
    s = Sim(ck, exe, cfg, net=net, agents=agents, wrapper=wrapper, timeout=120, place=rand_place(rng) if rng.random() < 0.5 else None)
    k = s.r.kind()
    # nothing is specified for networks without (a pair of) agents; more bots than agents are refused
    if k == "ok" or (k == "reject" and (n < 2 or p.get("n_bots", 0) > n)):
        ck.count("runs_" + ("valgrind" if wrapper else "asan") + "_" + model)
        ck.count("ended_" + k)
        ck.evaluated((model, n, T, c, net is not None, agents is not None, repr(sorted(p.items(), key=str))) if k == "ok" else None)
        if idx < 2:
            ck.sample({"model": model, "n": n, "iterations": T, "params": p})
    else:
        ck.run_failed(s.r, "%s n=%d%s" % (model, n, " under valgrind" if wrapper else ""), s.replay())
    s.clean()


def big(ck, exe, rng, what):
    shape, model = what
    n = 400000 if THOROUGH else 120000
    if model != "DeGroot":
        n //= 30  # these need quadratic time
    if shape == "ring":
        text = "".join("%d, 1, %d, 1.0\n" % (i, (i + 1) % n) for i in range(n))
    elif shape == "chain":
        text = "".join("%d, 1, %d, 1.0\n" % (i, max(0, i - 1)) for i in range(n))
    elif shape == "star":
        text = "".join("%d, 1, 0, 1.0\n" % i for i in range(n - 1)) + "%d, %d, %s, %s\n" % (
            n - 1, n, ", ".join(map(str, range(n))), ", ".join(["0.25"] * n))
    else:
        text = "".join("%d, 0\n" % i for i in range(n))
    p = {"DeffuantVector": {"binary_vector": True, "dim": 2, "homophily_threshold": 3.0}}.get(model, {})
    cfg = config(section(model), seed=1, max_iterations=1, n=n, c=1, io={"n_output_agents": 1}, **p)
    s = Sim(ck, exe, cfg, net=text, timeout=400)
    if s.r.kind() != "ok":
        ck.run_failed(s.r, "%s with a %s of %d agents" % (model, shape, n), {"config": vlib.toml(cfg)})
    else:
        ck.count("large_runs")
        ck.evaluated((shape, model, n))
        if len(s.agents(1)) != n:
            ck.fail("lost-agents", "%s with a %s of %d agents writes %d" % (model, shape, n, len(s.agents(1))))
    s.clean()


def example(ck, exe, path):
    """A configuration that comes with the program, on fewer agents and for fewer iterations."""
    text = open(path).read()
    n, T = (400, 6) if THOROUGH else (100, 4)
    text = re.sub(r"(?m)^(number_of_agents\s*=\s*)(\d+)", lambda m: m.group(1) + str(min(n, int(m.group(2)))), text)
    text = re.sub(r"(?m)^(max_iterations\s*=\s*)(\d+)", lambda m: m.group(1) + str(min(T, int(m.group(2)))), text)
    s = Sim(ck, exe, None, cfgtext=text, timeout=200)
    if s.r.kind() != "ok":
        ck.run_failed(s.r, "the example %s" % os.path.relpath(path, vlib.REPO), {"config": text})
    else:
        ck.count("examples_run")
        ck.evaluated(("example", os.path.relpath(path, vlib.REPO)))
    s.clean()


def main():
    ck = Check("C01", "random valid runs of all models under AddressSanitizer, UndefinedBehaviorSanitizer and the assertions of "
                      "libstdc++: 0..150 agents, all options on and off, more contacts, connections and bots than agents, extreme "
                      "but valid parameters, arbitrary networks and agents from files, any output intervals; a part under "
                      "valgrind memcheck (uninitialized values); rings, chains, stars and isolated agents of 120000 (thorough "
                      "400000; a 30th of that where a step takes quadratic time); the configurations in examples/. Distinct by configuration; runs have to end normally",
               ["with fewer than two agents, or more bots than agents, a run may also be refused", "leaks are not judged"])
    b = build("seldon:asan", "seldon:plain")
    exe = b["seldon:asan"]
    N = 16000 if THOROUGH else 1600
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: wide(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pmap(lambda f: example(ck, exe, f), sorted(glob.glob(os.path.join(vlib.REPO, "examples", "*", "conf.toml"))))
    pmap(lambda w: big(ck, exe, ck.rng, w), [("ring", "DeGroot"), ("chain", "DeGroot"), ("star", "DeGroot"), ("isolated", "DeGroot"),
                                            ("ring", "Deffuant"), ("isolated", "DeffuantVector"), ("star", "Deffuant"), ("chain", "ActivityDriven"),
                                            ("ring", "ActivityDrivenInertial")])
    import shutil
    if shutil.which("valgrind"):
        vg = ("valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--undef-value-errors=yes")
        seeds = [ck.rng.getrandbits(60) for _ in range(240 if THOROUGH else 48)]
        pmap(lambda t: wide(ck, b["seldon:plain"], random.Random(t[1]), 9, wrapper=vg, small=True), list(enumerate(seeds)))
    for m in MODELS:
        ck.require(ck.violations or ck.counters.get("runs_asan_" + m, 0) > 100, m)
    ck.require(ck.violations or ck.counters.get("ended_ok", 0) > 0.9 * N, "runs that end normally")
    return ck.finish()
