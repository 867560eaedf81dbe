"""C25: generated networks have the structure that was asked for."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C25", "random sizes, degrees and seeds for the generators (n connections, fully connected, square lattice): degree, "
                      "distinct neighbours, self connection, rows that sum to one, equal stream equal network, and over 6000 "
                      "networks every pair equally often. Distinct by the parameters",
               ["frequencies: 8 standard deviations"])
    exe = build("h_net:asan")["h_net:asan"]
    mon.spread(ck, exe, "gen", 160000 if THOROUGH else 10000, "n_connections", timeout=600)
    ck.require(ck.violations or ck.counters.get("uniformity_networks", 0) > 10000, "frequencies")
    return ck.finish()
