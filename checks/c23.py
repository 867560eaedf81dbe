"""C23: removing double counting merges parallel edges by adding their weights, and changes nothing else."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C23", "random multigraphs of 0..11 agents with up to 59 edges per agent in both representations; each row is "
                      "compared with the sums of the weights per neighbour (exact for integer weights). Non-trivial: at least "
                      "one merged edge", ["floating point weights: 64 ulp of the sum of absolute weights"])
    exe = build("h_net:asan")["h_net:asan"]
    mon.spread(ck, exe, "dbl", 400000 if THOROUGH else 40000, "networks", timeout=600)
    ck.require(ck.violations or ck.counters.get("edges_merged", 0) > 5000, "merged edges")
    return ck.finish()
