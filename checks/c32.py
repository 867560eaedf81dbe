"""C32: the DOT export of a network names every agent and exactly its neighbours."""
import os

from vlib import Check, build, pmap, THOROUGH
from . import mon


def main():
    ck = Check("C32", "random networks of 0..11 agents, with isolated agents and duplicate edges, exported over an absent or a longer "
                      "older file; every line is compared with the neighbours. Distinct by the text")
    exe = build("h_net:asan")["h_net:asan"]
    N = 160000 if THOROUGH else 16000

    def part(seed):
        d = ck.scratch()
        return mon.run_monitor(ck, exe, ["dot", seed, N // 8, d], 600, count_into="exports")
    pmap(part, [ck.rng.getrandbits(40) for _ in range(8)])
    ck.require(ck.violations or ck.counters.get("rows", 0) > 10000, "rows")
    return ck.finish()
