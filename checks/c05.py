"""C05: a network written to a file and read back is the same network, bit for bit."""
import random

from vlib import Check, Sim, build, config, pmap, read_network, THOROUGH
from .common import *
from . import mon


def cli(ck, exe, rng, idx):
    """network file -> run that outputs its initial network -> the file it writes -> next run"""
    n = rng.choice([1, 2, 3, 5, 9, 20])
    model = rng.choice(["DeGroot", "ActivityDriven", "ActivityDrivenInertial", "Deffuant"])
    net = rand_network(rng, n, dup=True, wscale=rng.choice([1.0, 1e-200, 1e150, 1e-312]))
    cfg = config(model, seed=rng.randint(0, 10**6), max_iterations=1, n=rng.randint(1, 30), c=1)
    if model == "Deffuant":
        cfg[model] = {}
    s = Sim(ck, exe, cfg, net=net)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s with a network file of %d agents" % (model, n), s.replay())
    got = s.network(0)
    if got != [(list(a), [float(x) for x in b]) for a, b in net]:
        return ck.fail("cli-network", "%s: network_0.txt is not the network given: %r -> %r" % (model, net, got), s.replay())
    text = open(s.out + "/network_0.txt").read()
    s2 = Sim(ck, exe, cfg, net=text)
    if s2.r.kind() != "ok":
        return ck.run_failed(s2.r, "reading network_0.txt back", s2.replay())
    if open(s2.out + "/network_0.txt").read() != text or s2.network(0) != got:
        ck.fail("cli-reread", "%s: network_0.txt read back gives another network" % model, s2.replay())
    ck.evaluated(("cli", model, n, sum(len(a) for a, _ in net)))
    ck.count("cli_chains")
    s.clean()
    s2.clean()


def main():
    ck = Check("C05", "in-process: random networks (0..25 and 110000 agents, isolated agents, duplicate and self edges) with "
                      "adversarial weights (any finite bit pattern, subnormal, signed zero, extremes), written and read back, "
                      "compared bit by bit; on the command line: file -> run -> file -> run. Distinct by (agents, edges)",
               ["weights NaN and infinity are not generated"])
    b = build("h_net:asan", "seldon:asan")
    d = ck.scratch()
    N = 40000 if THOROUGH else 4000
    import os

    def part(seed):
        p = os.path.join(d, str(seed))
        os.mkdir(p)
        return mon.run_monitor(ck, b["h_net:asan"], ["netio", p, seed, N // 8], 600, count_into="networks")
    pmap(part, [ck.rng.getrandbits(40) for _ in range(8)])
    seeds = [ck.rng.getrandbits(60) for _ in range(2000 if THOROUGH else 200)]
    pmap(lambda t: cli(ck, b["seldon:asan"], random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.violations or ck.counters.get("edges", 0) > 1000, "edges")
    return ck.finish()
