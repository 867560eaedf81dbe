"""Random configurations with the settings they stand for, and the in-process parser run."""
import json
import os

import vlib

ACT = {"dt": 0.01, "m": 10, "eps": 0.01, "gamma": 2.1, "alpha": 3.0, "homophily": 0.5, "reciprocity": 0.5, "K": 3.0,
       "mean_activities": False, "mean_weights": False, "n_bots": 0, "reluctances": False, "reluctance_mean": 1.0,
       "reluctance_sigma": 0.25, "reluctance_eps": 0.01, "covariance_factor": 0.0}
DEFAULTS = {
    "DeGroot": {"convergence": 1e-6},
    "Deffuant": {"homophily_threshold": 0.2, "mu": 0.5, "use_network": False, "binary_vector": False, "dim": 1},
    "ActivityDriven": ACT,
    "ActivityDrivenInertial": dict(ACT, friction_coefficient=1.0),
}
IO = {"n_output_agents": None, "n_output_network": None, "print_progress": False, "output_initial": True, "start_output": 1,
      "start_numbering_from": 0}
NET = {"number_of_agents": 200, "connections_per_agent": 10}
BOTS = ("bot_m", "bot_activity", "bot_opinion", "bot_homophily")
HOME = dict({m: set(d) | (set(BOTS) if "n_bots" in d else set()) for m, d in DEFAULTS.items()}, io=set(IO), network=set(NET),
            model={"max_iterations"}, simulation={"model", "rng_seed"})
STRAY = {"n_bots": "3", "binary_vector": "true", "max_iterations": "77", "rng_seed": "78", "model": "'DeGroot'", "bot_m": "[1, 2]", "bot_activity": "[0.5]",
         "bot_opinion": "[0.25]", "bot_homophily": "[0.125]"}


def parse(exe, ck, texts, timeout=300, env=None):
    """-> (list of ('CFG', dict) | ('REJ', stage, what) | None, run)"""
    d = ck.scratch()
    with open(os.path.join(d, "list"), "w") as f:
        for i, t in enumerate(texts):
            p = os.path.join(d, "%d.toml" % i)
            open(p, "wb").write(t.encode("utf-8", "surrogateescape") if isinstance(t, str) else t)
            f.write(p + "\n")
    r = vlib.run([exe, os.path.join(d, "list")], timeout=timeout, env=env)
    out = [None] * len(texts)
    for line in r.out.splitlines():
        t = line.split(" ", 2)
        if t[0] == "CFG":
            out[int(t[1])] = ("CFG", json.loads(t[2]))
        elif t[0] == "REJ":
            a = t[2].split(" ", 1)
            out[int(t[1])] = ("REJ", a[0], a[1] if len(a) > 1 else "")
    r_done = r.rc == 0 and r.out.rstrip().endswith("DONE")
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return out, r, r_done


def value(rng, key, sec):
    """A valid value of a setting, away from and on the edges of its range"""
    u = rng.random()
    if key in ("print_progress", "output_initial", "mean_activities", "mean_weights", "reluctances", "use_network"):
        return rng.random() < 0.5
    if key in ("n_output_agents", "n_output_network", "start_output"):
        return rng.choice([1, 2, 7, rng.randint(1, 10**6), 3000000000, int(2 ** rng.uniform(0, 62))])
    if key == "start_numbering_from":
        return rng.choice([0, 1, rng.randint(0, 10**6), int(2 ** rng.uniform(0, 62))])
    if key in ("number_of_agents", "connections_per_agent"):
        return rng.choice([0, 1, 2, rng.randint(1, 10**6), int(2 ** rng.uniform(0, 62))])
    if key == "m":
        return rng.choice([0, 1, rng.randint(0, 1000), rng.randint(0, 1000), int(2 ** rng.uniform(0, 31)) - 1, 2**31 - 1])
    if key == "dim":
        return rng.choice([rng.randint(1, 40), rng.randint(1, 40), int(2 ** rng.uniform(0, 40))])
    if key == "gamma":
        return rng.choice([2.0000000000000004, rng.uniform(2.0001, 6), 3, 10 ** rng.uniform(0.5, 6)])
    if key == "covariance_factor":
        return rng.choice([-1.0, 1.0, 0, rng.uniform(-1, 1)])
    if key == "mu":
        return rng.choice([0.0, 1.0, 0, 1, rng.random()])
    if key in ("dt", "eps", "reluctance_mean", "reluctance_sigma", "reluctance_eps", "homophily_threshold"):
        return rng.choice([5e-324, 1e-300, rng.random() + 1e-9, rng.uniform(0.001, 50), 2, 10 ** rng.uniform(-300, 300)])
    if key in ("alpha", "reciprocity", "friction_coefficient", "convergence"):
        return rng.choice([0.0, 0, rng.random(), rng.uniform(0, 50), 4, 10 ** rng.uniform(-300, 300)])
    if key in ("homophily", "K"):
        return rng.choice([0.0, -1.5, rng.uniform(-10, 10), 7, -3, 10 ** rng.uniform(-300, 300), -10 ** rng.uniform(-300, 300)])
    raise KeyError(key)


def random_config(rng, p_set=None):
    """-> (config as ordered dict of sections, expected settings)"""
    model = rng.choice(list(DEFAULTS))
    p = rng.random() if p_set is None else p_set
    cfg = {"simulation": {"model": model}}
    want = {"model": model, "kind": model}
    if rng.random() < 0.8:
        want["seed"] = cfg["simulation"]["rng_seed"] = rng.choice([0, 1, -5, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**62 + 1,
                                                                       -2**31 - 1, rng.randint(0, 10**9)])
    cfg["io"] = {}
    for k, d in IO.items():
        want[k] = d
        if rng.random() < p:
            want[k] = cfg["io"][k] = value(rng, k, "io")
    cfg["model"] = {}
    want["max_iterations"] = None
    if rng.random() < 0.7:
        want["max_iterations"] = cfg["model"]["max_iterations"] = rng.choice([0, 1, 500, rng.randint(0, 2**31 - 1)])
    sec = cfg[model] = {}
    binary = model == "Deffuant" and rng.random() < 0.5
    for k, d in DEFAULTS[model].items():
        want[k] = d
        if k in ("n_bots", "binary_vector", "dim"):
            continue
        if rng.random() < p:
            want[k] = sec[k] = value(rng, k, model)
    if binary:
        want["binary_vector"] = sec["binary_vector"] = True
        if rng.random() < 0.7:
            want["dim"] = sec["dim"] = value(rng, "dim", model)
    if model.startswith("Activity"):
        nb = 0
        if rng.random() < 0.6:
            nb = want["n_bots"] = sec["n_bots"] = rng.choice([0, 1, 2, 5, rng.randint(6, 60)])
        for k in BOTS:
            if rng.random() < 0.6:
                ln = nb + rng.choice([0, 0, 1, 3, rng.randint(4, 40)])
                if k == "bot_m":
                    v = [rng.choice([rng.randint(0, 30), int(2 ** rng.uniform(0, 31)) - 1]) for _ in range(ln)]
                else:
                    v = [rng.choice([rng.uniform(-3, 3), rng.uniform(0, 1), rng.randint(-3, 3), rng.choice([-1, 1]) * 10 ** rng.uniform(-300, 300)]) for _ in range(ln)]
                want[k] = sec[k] = v
            elif k == "bot_m":
                want[k] = [want["m"]] * nb
            elif k == "bot_opinion":
                want[k] = [0.0] * nb
            elif k == "bot_homophily":
                want[k] = [want["homophily"]] * nb
            else:
                want[k] = ("len", nb)  # the documented default of bot_activity is contradictory, only its length is judged
    cfg["network"] = {}
    for k, d in NET.items():
        want[k] = d
        if rng.random() < p:
            want[k] = cfg["network"][k] = value(rng, k, "network")
    # settings of other models do not matter
    for other in DEFAULTS:
        if other != model and rng.random() < 0.3:
            cfg[other] = {k: value(rng, k, other) for k in DEFAULTS[other] if k not in ("n_bots", "binary_vector") and rng.random() < 0.5}
    return cfg, want


def render(rng, cfg):
    """TOML text with the sections and keys in random order, comments, unknown keys"""
    secs = [s for s in cfg if cfg[s] or rng.random() < 0.5]
    rng.shuffle(secs)
    out = []
    if rng.random() < 0.3:
        out.append("title = 'a run'")
    for s in secs:
        out.append("[%s]%s" % (s, rng.choice(["", " # section", ""])))
        keys = list(cfg[s])
        rng.shuffle(keys)
        for k in keys:
            out.append("%s%s = %s%s" % (rng.choice(["", "  "]), k, vlib.tval(cfg[s][k]), rng.choice(["", " # x = 3", ""])))
        if rng.random() < 0.2:
            out.append("unknown_%d = 1" % rng.randint(0, 99))
        if rng.random() < 0.2:  # a setting of another section
            other = rng.choice([o for o in HOME if HOME[o] is not HOME.get(s)])
            k = rng.choice(sorted(HOME[other]))
            if k not in HOME.get(s, ()) and k not in cfg[s]:
                out.append("%s = %s" % (k, vlib.tval(value(rng, k, other)) if k not in STRAY else STRAY[k]))
        if rng.random() < 0.3:
            out.append("")
    return rng.choice(["\n", "\n", "\r\n"]).join(out) + "\n"
