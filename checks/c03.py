"""C03: the seed and the input files determine the run completely."""
import os
import random
import re
import shutil

from vlib import rand_place, Check, Sim, build, config, pmap, THOROUGH, NPROC
from .common import *


TIMES = re.compile(r"(?i)(?<=time).*$|\d+(\.\d+)?\s*(ms|s|us|h|m)\b.*$", re.M)


def snapshot(s):
    return {f: open(os.path.join(s.out, f), "rb").read() for f in s.files()}


def env_of(rng):
    fill = rng.choice([0, 1, 0x41, 0xbe, 0xff])
    import vlib
    return {"ASAN_OPTIONS": vlib.SAN_ENV["ASAN_OPTIONS"] + ":max_malloc_fill_size=100000000:malloc_fill_byte=%d:free_fill_byte=%d:max_free_fill_size=100000000"
            % (fill, rng.choice([0, 0x55, 0xff])), "MALLOC_PERTURB_": str(rng.choice([0, 1, 85, 170, 255])), "SELDON_TEST_PAD": "x" * rng.randint(0, 5000),
            **{k: rng.choice(v) for k, v in VARIED.items()}}


VARIED = {"LC_ALL": [None, "C", "C.UTF-8", "POSIX"], "LC_NUMERIC": [None, "C", "C.UTF-8", "de_DE.UTF-8"], "LANG": [None, "C", "de_DE.UTF-8"],
          "TZ": [None, "UTC", "Asia/Tokyo"], "HOME": [None, "/", "/nonexistent"], "USER": [None, "root", "someone"], "PWD": [None, "/"],
          "TMPDIR": [None, "/", "/nonexistent"], "TERM": [None, "dumb", "xterm"], "COLUMNS": [None, "40"], "OMP_NUM_THREADS": [None, "1", "7"],
          "HOSTNAME": [None, "h"], "SEED": [None, "1", "2"], "RNG_SEED": [None, "5"], "DEBUG": [None, "1"], "NO_COLOR": [None, "1"]}


def one(ck, exe, rng, idx):
    exe = exe[idx % 2]
    model = rng.choice(MODELS)
    n, T = size_steps(rng, [2, 3, 4, 5, 9, 25], [1, 3, 6], big=(65, 100, 169, 300), far=(64, 70, 130))
    if rng.random() < 0.04:
        n, T = 25, 70
    p = rand_params(rng, model, n)
    seed = rng.choice([0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**63 - 1, -2**63, rng.randint(-2**31, 2**32)])
    c = rng.randint(1, n)
    net = rand_network(rng, n) if rng.random() < 0.2 else None
    agents = rand_agents(rng, model, n, dim=p.get("dim", 1)) if rng.random() < 0.2 else None
    cfg = config(section(model), seed=seed, max_iterations=T, n=n, c=c, **p)
    ref = text = None
    place = rand_place(rng)
    place["abs"] = False
    for k in range(4):
        cfg["io"]["print_progress"] = bool(k % 2)
        s = Sim(ck, exe, cfg, net=net, agents=agents, env=env_of(rng), place=place if k % 2 == 0 else rand_place(rng))
        if s.r.kind() != "ok":
            return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
        snap = snapshot(s)
        ck.count("files_compared", len(snap))
        if not snap:
            ck.fail("no-output", "%s n=%d writes nothing" % (model, n), s.replay())
        if ref is None:
            ref = snap
        if k % 2 == 0:  # the same arguments in another working directory
            o = TIMES.sub("", s.r.out)
            ck.count("printed_lines_compared", o.count("\n"))
            if text is None:
                text = o
            elif o != text:
                i = next((i for i, (a, b) in enumerate(zip(o.split("\n"), text.split("\n"))) if a != b), -1)
                ck.fail("prints", "%s n=%d seed %d: a second run prints %r instead of %r" % (
                    model, n, seed, o.split("\n")[i], text.split("\n")[i]), s.replay())
        if snap != ref:
            f = sorted(f for f in set(snap) | set(ref) if snap.get(f) != ref.get(f))
            ck.fail("not-reproducible", "%s n=%d seed %d: a second run with the same configuration writes a different %s"
                    % (model, n, seed, f[:4]), s.replay())
        s.clean()
    ck.evaluated((model, n, T, seed, repr(p), net is not None, agents is not None))
    if idx < 2:
        ck.sample({"model": model, "n": n, "seed": seed, "files": len(ref)})


def other_seed(ck, exe, rng, idx):
    """different seeds give different runs: with 40 agents the generated network coincides with probability < 1e-50"""
    model = rng.choice(MODELS)
    n = 40
    p = rand_params(rng, model, n, mean_weights=False, bots=0)
    if model not in ("DeGroot", "Deffuant", "DeffuantVector"):
        p["mean_activities"] = False
        p["m"] = max(1, min(5, p["m"]))
    if model == "DeffuantVector":
        p.update(dim=30, homophily_threshold=31.0)
    seed = rng.choice([rng.randint(-2**31, 2**31 - 9), rng.randint(0, 2**32 - 10**5), rng.randint(-2**40, 2**40)])
    d = 1 << rng.randrange(32) if rng.random() < 0.8 else rng.randint(1, 2**31)
    sims = []
    for sd in (seed, seed + d):
        s = Sim(ck, exe, config(section(model), seed=sd, max_iterations=3, n=n, c=10, **p))
        if s.r.kind() != "ok":
            return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
        sims.append(s)
    a, b = map(snapshot, sims)
    if a["network_0.txt"] == b["network_0.txt"]:
        ck.fail("seed-ignored", "%s: seeds %d and %d generate the same network" % (model, seed, seed + d), sims[1].replay())
    if model != "DeGroot" and model != "Deffuant" and a["opinions_0.txt"] == b["opinions_0.txt"]:
        ck.fail("seed-ignored", "%s: seeds %d and %d draw the same agents" % (model, seed, seed + d), sims[1].replay())
    # the same network and agents: the steps still depend on the seed
    if model in ("ActivityDriven", "ActivityDrivenInertial", "DeffuantVector"):
        nt, at = a["network_0.txt"], a["opinions_0.txt"]
        s = Sim(ck, exe, config(section(model), seed=seed + d, max_iterations=3, n=n, c=10, **p), net=nt, agents=at)
        t = Sim(ck, exe, config(section(model), seed=seed, max_iterations=3, n=n, c=10, **p), net=nt, agents=at)
        if s.r.kind() != "ok" or t.r.kind() != "ok":
            return ck.run_failed(s.r if s.r.kind() != "ok" else t.r, model, s.replay())
        varies = model == "DeffuantVector" or p["reciprocity"] not in (0, 1) or True
        act = any(0.02 < r[1 if model == "ActivityDriven" else 2] for r in s.agents(0)) if model != "DeffuantVector" else True
        if varies and act and all(open(os.path.join(s.out, f), "rb").read() == open(os.path.join(t.out, f), "rb").read()
                                  for f in s.files() if not f.endswith("_0.txt")):
            # activities may be so small that nothing happens in both
            edges = sum(len(nb) for i in (1, 2, 3) for nb, _ in s.network(i)) if model != "DeffuantVector" else 1
            if edges > 10:
                ck.fail("seed-ignored", "%s: the steps of seeds %d and %d are the same" % (model, seed, seed + d), s.replay())
        s.clean()
        t.clean()
    ck.count("seed_pairs")
    ck.evaluated((model, seed, d))
    for s in sims:
        s.clean()


def unseeded(ck, exe, rng, idx):
    """without a seed one is drawn and printed, and using it reproduces the run"""
    model = rng.choice(MODELS)
    n = 12
    p = rand_params(rng, model, n)
    cfg = config(section(model), max_iterations=3, n=n, c=4, **p)
    del cfg["simulation"]["rng_seed"]
    s = Sim(ck, exe, cfg)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, model, s.replay())
    m = re.search(r"[Ss]eed:?\s*(-?\d+)", s.r.out)
    if not m:
        ck.inconc("the seed is not printed")
        return
    cfg["simulation"]["rng_seed"] = int(m.group(1))
    t = Sim(ck, exe, cfg)
    if t.r.kind() != "ok":
        return ck.run_failed(t.r, model, t.replay())
    if snapshot(s) != snapshot(t):
        ck.fail("printed-seed", "%s: the printed seed %s does not reproduce the run" % (model, m.group(1)), t.replay())
    ck.evaluated(("unseeded", model, m.group(1)))
    ck.count("unseeded_runs")
    s.clean()
    t.clean()
    return int(m.group(1))


def fresh(ck, exe, ncase):
    """runs without a seed do not share their random choices: 48 generated networks of 20 agents all differ"""
    def go(i):
        cfg = config("DeGroot", max_iterations=0, n=20, c=6, convergence=0.0)
        del cfg["simulation"]["rng_seed"]
        s = Sim(ck, exe, cfg)
        if s.r.kind() != "ok":
            ck.run_failed(s.r, "DeGroot without a seed", s.replay())
            return None
        b = snapshot(s).get("network_0.txt")
        s.clean()
        return b
    nets = [x for x in pmap(go, range(ncase)) if x is not None]
    ck.count("fresh_networks", len(nets))
    if len(set(nets)) < len(nets):
        ck.fail("constant-seed", "of %d networks generated without a seed only %d are different" % (len(nets), len(set(nets))), {})


def main():
    ck = Check("C03", "random runs of all models, each repeated four times with a different heap fill pattern, environment, address "
                      "layout, working and output directory and names of the input files, all files and what is printed (except times) compared byte by byte; pairs of different seeds; runs without a "
                      "seed and with the printed one; distinct by configuration",
               ["the same executable on the same machine"])
    exes = build("seldon:asan", "seldon:plain")
    exe = exes["seldon:asan"]
    k = 8 if THOROUGH else 1
    for f, N, x in ((one, 900 * k, (exe, exes["seldon:plain"])), (other_seed, 200 * k, exe)):
        seeds = [ck.rng.getrandbits(60) for _ in range(N)]
        pmap(lambda t: f(ck, x, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(40)]
    drawn = pmap(lambda t: unseeded(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    fresh(ck, exes["seldon:plain"], 128 if THOROUGH else 48)
    drawn = [d for d in drawn if d is not None]
    if len(drawn) > 20 and len(set(drawn)) < 3:
        ck.fail("constant-seed", "the seeds drawn in %d runs without a seed: %r" % (len(drawn), set(drawn)))
    ck.require(ck.counters.get("files_compared", 0) > 3000 and ck.counters.get("seed_pairs", 0) > 30, "runs")
    return ck.finish()
