"""C22: a network always shows the edges that its history of changes defines."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C22", "random histories of up to 28 operations (all ways to construct, set, push, clear, write through views, copy, "
                      "move, change direction, and rejected changes of wrong size) against a reference edge list; everything "
                      "observable is compared after every operation. Distinct by the history")
    exe = build("h_net:asan")["h_net:asan"]
    mon.spread(ck, exe, "hist", 240000 if THOROUGH else 24000, "histories", timeout=600)
    ck.require(ck.violations or ck.counters.get("rejected", 0) > 1000, "rejected operations")
    return ck.finish()
