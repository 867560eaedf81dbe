"""C21: the changes of direction and representation of a network keep or reverse exactly the right edges."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C21", "random networks of 0..8 agents in both representations, with self loops and duplicates, then 1..6 of "
                      "toggle / transpose / switch; after each the multiset of directed weighted edges is compared with the "
                      "one predicted from the start. Non-trivial: at least one edge; distinct by network and sequence")
    exe = build("h_net:asan")["h_net:asan"]
    mon.spread(ck, exe, "alg", 400000 if THOROUGH else 24000, "sequences", timeout=600)
    ck.require(ck.violations or ck.counters.get("transpose", 0) > 5000, "transpositions")
    return ck.finish()
