"""C28: densities, inverse distribution functions and samples of every distribution belong together."""
from vlib import Check, build, THOROUGH
from . import mon


def main():
    ck = Check("C28", "random parameters for power law, truncated normal, bivariate normal, copula, inverse error function; "
                      "normalization by quadrature, inverse against the analytic cdf, 20000 samples each by Kolmogorov-Smirnov, "
                      "dependence by covariance and quadrant probability; distinct by parameters",
               ["KS statistic above 4.2 (p < 1e-15)", "truncation at most 3 standard deviations above the mean"])
    exe = build("h_math:asan")["h_math:asan"]
    mon.spread(ck, exe, "dist", 6000 if THOROUGH else 320, "rounds", timeout=800)
    ck.evaluated(n=ck.counters.get("samples", 0))
    ck.require(ck.violations or ck.counters.get("samples", 0) > 10**6, "samples")
    return ck.finish()
