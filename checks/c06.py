"""C06: agents written to a file and read back are the same agents, bit for bit, for every kind of agent."""
import os
import random

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import mon


def hard(rng):
    return rng.choice([rand_double(rng), rng.choice([5e-324, -2.5e-310, 1.7976931348623157e308, -0.0, 2.2250738585072014e-308]),
                       rng.uniform(-1, 1), 10 ** rng.uniform(-300, 300)])


def cli(ck, exe, rng, idx):
    """The agents of a file are the initial agents of the run, and they are written as they were given."""
    n = rng.choice([1, 2, 3, 7, 20])
    model = rng.choice(MODELS)
    dim = rng.choice([rng.randint(1, 9), rng.randint(1, 9), rng.randint(40, 300)])
    if model == "DeffuantVector":
        rows = [[rng.randrange(2) for _ in range(dim)] for _ in range(n)]
    else:
        rows = [[hard(rng) for _ in range(NCOL[model])] for _ in range(n)]
    params = {"binary_vector": True, "dim": dim} if model == "DeffuantVector" else {}
    cfg = config(section(model), seed=rng.randint(0, 10**6), max_iterations=0, n=n, c=min(2, n - 1), **params)
    s = Sim(ck, exe, cfg, agents=rows)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s with an agent file of %d agents" % (model, n), s.replay())
    got = s.agents(0)
    if [[repr(float(x)) for x in r] for r in rows] != [[repr(x) for x in r] for r in got]:
        return ck.fail("cli-agents", "%s: opinions_0.txt is not what was given: %r -> %r" % (model, rows, got), s.replay())
    text = open(s.out + "/opinions_0.txt").read()
    head = [c.strip() for c in text.splitlines()[0].lstrip("# ").split(",")]
    want = {"ActivityDriven": ["opinion", "activity", "reluctance"],
            "ActivityDrivenInertial": ["opinion", "velocity", "activity", "reluctance"], "DeffuantVector": []}.get(model, ["opinion"])
    if head[1:len(want) + 1] != want:
        ck.fail("header", "%s: the columns are %r, but the header announces %r" % (model, want, head), s.replay())
    s2 = Sim(ck, exe, cfg, agents=text)
    if s2.r.kind() != "ok":
        return ck.run_failed(s2.r, "reading opinions_0.txt back", s2.replay())
    if open(s2.out + "/opinions_0.txt").read() != text:
        ck.fail("cli-reread", "%s: opinions_0.txt read back gives other agents" % model, s2.replay())
    ck.evaluated(("cli", model, n))
    ck.count("cli_" + model)
    s.clean()
    s2.clean()


def main():
    ck = Check("C06", "in-process: random agents of the four kinds (0..25 and 110000 agents) with adversarial values, written and "
                      "read back, compared bit by bit; on the command line: agent file -> run without iterations -> file -> run",
               ["values NaN and infinity are not generated", "vector agents have at least one component"])
    b = build("h_net:asan", "seldon:asan")
    d = ck.scratch()
    N = 40000 if THOROUGH else 4000

    def part(seed):
        p = os.path.join(d, str(seed))
        os.mkdir(p)
        return mon.run_monitor(ck, b["h_net:asan"], ["agio", p, seed, N // 8], 600, count_into="files")
    pmap(part, [ck.rng.getrandbits(40) for _ in range(8)])
    ck.evaluated(n=sum(v for k, v in ck.counters.items() if k.startswith("agents_")))
    seeds = [ck.rng.getrandbits(60) for _ in range(2000 if THOROUGH else 300)]
    pmap(lambda t: cli(ck, b["seldon:asan"], random.Random(t[1]), t[0]), list(enumerate(seeds)))
    for k in ("simple", "activity", "inertial", "vector"):
        ck.require(ck.violations or ck.counters.get("agents_" + k, 0) > 1000, k)
    return ck.finish()
