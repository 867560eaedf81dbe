"""C27: weighted sampling without replacement has the probabilities of the weights."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C27", "random n <= 6, k (0..n+3), weights with zeros, ratios up to e^6 and scales 1e-200..1e200; the frequency of "
                      "every subset over 4000 draws against the exact probability of successive sampling; n up to 519 for "
                      "distinctness. Non-trivial: fewer drawn than have a positive weight",
               ["frequencies are rejected with an error below 1e-12 (Bernstein)"])
    exe = build("h_math:asan")["h_math:asan"]
    mon.spread(ck, exe, "res", 40000 if THOROUGH else 4000, "cases", timeout=800)
    ck.require(ck.violations or ck.counters.get("distributions", 0) > 400, "distributions")
    return ck.finish()
