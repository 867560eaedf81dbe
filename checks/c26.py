"""C26: drawing k of n without replacement gives distinct allowed items, every subset equally often."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C26", "random n (1..60, 200..4000, up to 135000), k and excluded index; up to n = 6 the frequency of every subset over 3000 "
                      "draws, above that of items and of a pair. Non-trivial: 0 < k < available; distinct by parameters",
               ["frequencies are rejected with an error below 1e-12 (Bernstein)"])
    exe = build("h_math:asan")["h_math:asan"]
    mon.spread(ck, exe, "draw", 20000 if THOROUGH else 1600, "cases", timeout=800)
    ck.require(ck.violations or ck.counters.get("draws", 0) > 10**6, "draws")
    return ck.finish()
