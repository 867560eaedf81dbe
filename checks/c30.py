"""C30: exactly the configurations inside the documented ranges are accepted."""
import copy
import math
import random

from vlib import Check, build, pmap, THOROUGH
from . import cfg as C

NAN, INF = float("nan"), float("inf")
TINY = 5e-324
COUNTS = ("n_output_agents", "n_output_network", "start_output", "start_numbering_from", "number_of_agents", "connections_per_agent",
          "n_bots", "dim")


def bad_values(key):
    if key in ("dt", "eps", "reluctance_mean", "reluctance_sigma", "reluctance_eps", "homophily_threshold"):
        return [0.0, -0.0, -TINY, -1.0, 0, -3, NAN, -INF]
    if key in ("alpha", "reciprocity", "friction_coefficient", "convergence"):
        return [-TINY, -0.5, -2, NAN, -INF]
    if key == "m":
        return [-1, -10, -2**31]
    if key == "gamma":
        return [2.0, 2, 1.9999999999999998, 1.0, 0, -3.0, NAN, -INF]
    if key == "covariance_factor":
        return [1.0000000000000002, -1.0000000000000002, 2, -7.0, NAN, INF, -INF]
    if key == "mu":
        return [1.0000000000000002, -TINY, 2, -1, NAN, INF]
    if key in ("start_output", "n_output_agents", "n_output_network", "dim"):
        return [0]
    return None


def bad(rng, cfg, want):
    """-> (config with one violated constraint, name) or None"""
    model = want["model"]
    c = copy.deepcopy(cfg)
    sec = c[model]
    options = [("io", k) for k in ("start_output", "n_output_agents", "n_output_network")]
    options += [(model, k) for k in C.DEFAULTS[model] if bad_values(k)] * 2
    if model.startswith("Activity"):
        options += [("bots", k) for k in C.BOTS] + [("bots", "negative"), ("bots", "entry")]
    if model == "Deffuant":
        options += [("dim", "scalar")] * 2
    options += [("simulation", "model")]
    if rng.random() < 0.25:
        options = [("type", k) for k in C.DEFAULTS[model]] + [("type-io", k) for k in C.IO] + [("type-network", k) for k in C.NET] \
            + [("type-model", "max_iterations"), ("type-simulation", "rng_seed")]
    s, k = rng.choice(options)
    if s.startswith("type"):
        sec = c.setdefault(s[5:] or model, {})
        vals = ["3", "0.5", "", "true", [1], [], [[0.25]]]
        if k in COUNTS:
            vals += [-1, -2**31, -2**63] * 2
        if k == "max_iterations" or k == "m":
            vals += [2**31, 2**32 + 5, 2**63 - 1, -2**31 - 1, -2**63] * 2
        if k in COUNTS or k in ("max_iterations", "m", "rng_seed"):
            vals += [INF, -INF, NAN, 0.5, 1e300]
        sec[k] = rng.choice(vals)
        if k == "n_bots" and sec[k] == []:
            sec[k] = "3"
        return c, "type.%s" % k
    if s == "bots":
        nb = rng.choice([1, 2, 5, rng.randint(6, 50)])
        sec["n_bots"] = nb
        for b in C.BOTS:
            sec[b] = [rng.randint(0, 5) for _ in range(nb + rng.choice([0, 2]))]
        if k == "entry":
            b = rng.choice(C.BOTS)
            if rng.random() < 0.2:
                sec[b] = rng.choice([1, 0.5, "3", True])
            else:
                sec[b][rng.randrange(len(sec[b]))] = rng.choice(
                    ["3", "", [1], []] + ([0.5, 2**31, 2**32 + 1, INF, NAN] if b == "bot_m" else [True, False]))
            return c, "bots.type"
        if k == "negative":
            sec["bot_m"][rng.randrange(len(sec["bot_m"]))] = rng.choice([-1, -100])
            if rng.random() < 0.3:  # no (or fewer) bots, but entries
                sec["n_bots"] = rng.randrange(nb)
                if rng.random() < 0.3:
                    del sec["n_bots"]
        else:
            sec[k] = sec[k][:rng.choice([rng.randrange(nb), nb - 1])]
    elif s == "dim":
        sec["binary_vector"] = False
        if rng.random() < 0.5:
            del sec["binary_vector"]
        sec["dim"] = rng.choice([2, 3, 17])
    elif s == "simulation":
        if rng.random() < 0.3:
            del c["simulation"]["model"]
        else:
            c["simulation"]["model"] = rng.choice(["", "degroot", "DeGroot ", "ActivityDrivenModel", "Activity", "Deffuant2", "None",
                                                   "DEFFUANT", "ActivityDrivenInertia", 3, True])
    else:
        if k == "dim":
            sec["binary_vector"] = rng.random() < 0.8
        c[s][k] = rng.choice(bad_values(k))
    return c, "%s.%s" % (s, k)


def main():
    ck = Check("C30", "random configurations that are valid (ends of the ranges included) and copies with exactly one violated "
                      "constraint, taken just beyond the end of a range, far outside, infinite or not a number, of a wrong type or too "
                      "large for the setting, short bot lists, "
                      "unknown or missing model; valid ones have to be accepted and the others rejected. Distinct by text",
               ["values that no documentation or check restricts (K, homophily, eps above 1, ...) are not judged"])
    exe = build("h_cfg:asan")["h_cfg:asan"]
    N = 48000 if THOROUGH else 6000
    B = 300

    def batch(seed):
        rng = random.Random(seed)
        cases = []
        for i in range(B):
            c, want = C.random_config(rng)
            if i % 3 == 0:
                cases.append((C.render(rng, c), None))
            else:
                b = bad(rng, c, want)
                cases.append((C.render(rng, b[0]), (want["model"], b[1])))
        out, r, done = C.parse(exe, ck, [t for t, _ in cases])
        if not done:
            i = next((i for i, o in enumerate(out) if o is None), 0)
            return ck.run_failed(r, "validation", {"text": cases[i][0]})
        for (text, why), o in zip(cases, out):
            ck.evaluated(text if why else None)
            ck.count("must_reject" if why else "must_accept")
            if why is None and o[0] != "CFG":
                ck.fail("rejects-valid", "valid configuration rejected (%s: %s)" % (o[1], o[2]), {"text": text})
            if why is not None and o[0] != "REJ":
                ck.fail("accepts-" + why[1].split(".")[0].replace("ActivityDrivenInertial", "Activity") + "." + why[1].split(".")[1],
                        "%s: configuration with an invalid %s accepted" % why, {"text": text})
            if why is not None:
                with ck._lock:
                    ck.counters.setdefault("constraints", 0)
                    seen.add(why)
        ck.sample({"text": cases[1][0][:300], "invalid": cases[1][1]})
    seen = set()
    pmap(batch, [ck.rng.getrandbits(60) for _ in range(N // B)])
    ck.counters["constraints"] = len(seen)
    ck.require(ck.violations or len(seen) >= 40, "constraints")
    return ck.finish()
