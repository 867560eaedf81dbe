"""C31: comma lists are split, vectors compared and files read exactly."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C31", "random strings of 0..3000 characters with random density of commas against a reference split; random integer "
                      "vectors of equal and unequal length; random binary files. Non-trivial: at least two entries")
    exe = build("h_math:asan")["h_math:asan"]
    d = ck.scratch()
    mon.spread(ck, exe, "text", 800000 if THOROUGH else 80000, "lists", extra=[d], timeout=800)
    ck.require(ck.violations or ck.counters.get("entries", 0) > 10**5, "entries")
    return ck.finish()
