"""C24: the strongly connected components are the classes of mutual reachability."""
import random
import re

from vlib import Check, Sim, build, config, pmap, THOROUGH
from .common import *
from . import mon


def components(net):
    n = len(net)
    reach = []
    for s in range(n):
        seen, todo = {s}, [s]
        while todo:
            for u in net[todo.pop()][0]:
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        reach.append(seen)
    return len({frozenset(u for u in reach[v] if v in reach[u]) for v in range(n)})


def cli(ck, exe, rng, idx):
    """DeGroot announces the number of components of a network that is not strongly connected"""
    n = rng.randint(1, 14)
    net = rand_network(rng, n, density=rng.uniform(0, 2.5) / n) if rng.random() < 0.7 else rand_strong_network(rng, n)
    s = Sim(ck, exe, config("DeGroot", max_iterations=1, n=n, c=1), net=net)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "DeGroot n=%d" % n, s.replay())
    m = re.search(r"(\d+) strongly connected components", s.r.out)
    want = components(net)
    got = int(m.group(1)) if m else 1
    if got != want:
        ck.fail("cli-warning", "the network has %d strongly connected components, announced are %d" % (want, got), s.replay())
    ck.count("cli_runs")
    ck.evaluated(("cli", repr([a for a, _ in net])) if 1 < want < n else None)
    s.clean()


def main():
    ck = Check("C24", "all directed graphs of up to 4 nodes (rows in random order), random graphs of 5..84 nodes, rings and chains "
                      "of 200000 (thorough 1000000) nodes, against reachability computed node by node; the warning of the "
                      "DeGroot model against the same. Non-trivial: more than one component and fewer than nodes")
    b = build("h_net:asan", "seldon:asan")
    mon.spread(ck, b["h_net:asan"], "scc", 60000 if THOROUGH else 6000, "graphs", extra=[1000000 if THOROUGH else 200000], timeout=600)
    seeds = [ck.rng.getrandbits(60) for _ in range(2000 if THOROUGH else 200)]
    pmap(lambda t: cli(ck, b["seldon:asan"], random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.violations or ck.counters.get("graphs", 0) > 60000, "graphs")
    return ck.finish()
