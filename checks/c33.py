"""C33: what a run prints is what it does."""
import os
import random
import re
import shutil

import vlib
from vlib import Check, Sim, build, config, pmap, rand_place, THOROUGH
from .common import *
from . import cfg as C

LABEL = {"Random seed:": "seed", "type": "model", "convergence_tol": "convergence", "use_binary_vector": "binary_vector",
         "use_reluctances": "reluctances", "Bot opinions": "bot_opinion", "Bot m": "bot_m", "Bot activity(s)": "bot_activity",
         "Bot homophily(s)": "bot_homophily", "n_agents": "number_of_agents", "n_connections": "connections_per_agent"}
PLAIN = ["max_iterations", "n_bots", "friction_coefficient"] + list(C.IO) + [
    k for m in C.DEFAULTS.values() for k in m if k not in LABEL.values() and k != "n_bots" and k != "friction_coefficient"]
LABELS = dict(LABEL, **{k: k for k in PLAIN})
ORDER = sorted(LABELS, key=len, reverse=True)
SECTION = {"Model": set(k for m in C.DEFAULTS.values() for k in m) | set(C.BOTS) | {"max_iterations", "model"},
           "Network": set(C.NET), "Output": set(C.IO), "": {"seed"}}
RELUCTANCE = ("reluctance_mean", "reluctance_sigma", "reluctance_eps", "covariance_factor")


def printed(lines):
    """-> list of (section, setting, text)"""
    out, sec = [], ""
    for line in lines:
        t = line.strip()
        m = re.fullmatch(r"\[(\w+)\]", t)
        if m:
            sec = m.group(1)
            continue
        for l in ORDER:
            if t == l or t.startswith(l + " "):
                out.append((sec, LABELS[l], t[len(l):].strip()))
                break
    return out


def value(t):
    if t in ("true", "false"):
        return t == "true"
    if t == "none":
        return None
    m = re.fullmatch(r"optional\((.*)\)", t)
    if m:
        t = m.group(1)
    if t.startswith("["):
        return [value(x.strip()) for x in t[1:-1].split(",") if x.strip()]
    try:
        return int(t)
    except ValueError:
        pass
    try:
        return float(t)
    except ValueError:
        return t.strip('"')


def eq(a, b):
    if isinstance(b, tuple):
        return isinstance(a, list) and len(a) == b[1]
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(a, bool) or b is None or a is None:
        return a is b
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    return float(a) == float(b)


def judge(ck, lines, want, rep):
    got = printed(lines)
    seen = {}
    for sec, k, t in got:
        if sec and k not in SECTION.get(sec, ()):
            ck.fail("section", "%s: %s is printed in section %s" % (want["model"], k, sec), rep)
        seen.setdefault(k, []).append(t)
    for k, v in want.items():
        if k == "kind" or k == "seed" and v is None:
            continue
        if k not in seen:
            if k in C.BOTS and not want.get("n_bots") or k in RELUCTANCE and not want.get("reluctances"):
                continue  # not in force
            ck.fail("missing-" + k, "%s: the setting %s is not printed" % (want["model"], k), rep)
            continue
        ck.count("settings_compared")
        for t in seen[k]:
            if not eq(value(t), v):
                ck.fail("setting-" + k, "%s: prints %s %s, in force is %r" % (want["model"], k, t, v), rep)
    for k in seen:
        if k not in want and k != "seed":
            ck.fail("foreign-" + k, "%s: prints a setting %s" % (want["model"], k), rep)
    return seen


def settings(ck, exe, seed, B=100):
    rng = random.Random(seed)
    cases = [C.random_config(rng) for _ in range(B)]
    d = ck.scratch()
    texts = [C.render(rng, c) for c, _ in cases]
    with open(os.path.join(d, "list"), "w") as f:
        for i, t in enumerate(texts):
            p = os.path.join(d, "%d.toml" % i)
            open(p, "wb").write(t.encode())
            f.write(p + "\n")
    r = vlib.run([exe, os.path.join(d, "list"), "print"], timeout=120)
    if r.rc != 0 or not r.out.rstrip().endswith("DONE"):
        return ck.run_failed(r, "printing settings")
    block = None
    for line in r.out.splitlines():
        if line.startswith("PRINT "):
            block = []
        elif line.startswith(("CFG ", "REJ ")):
            i = int(line.split(" ")[1])
            if line.startswith("REJ") or block is None:
                ck.fail("rejected", "valid configuration not printed: " + line[:200], {"text": texts[i]})
            else:
                judge(ck, block, cases[i][1], {"text": texts[i], "printed": block})
            ck.evaluated(texts[i])
            block = None
        elif block is not None:
            block.append(line)
    shutil.rmtree(d, ignore_errors=True)


def run(ck, exe, rng, idx):
    model = rng.choice(MODELS)
    n = rng.choice([1, 2, 4, 9, 16])
    T = rng.choice([0, 1, 2, 3, 9, 25, 130] if rng.random() < 0.97 else [1100, 2300])
    p = rand_params(rng, model, n)
    if model == "DeGroot":
        p["convergence"] = rng.choice([0.0, 1e-2, 1e-3])
    io = {"n_output_agents": 1}
    u = rng.random()
    if u < 0.8:
        io["print_progress"] = u < 0.5
    if rng.random() < 0.5:
        io.update(start_output=rng.choice([1, 2, 5]), start_numbering_from=rng.choice([0, 3, 1000]))
    io["output_initial"] = rng.random() < 0.5
    seed = rng.choice([None, rng.randint(-2**31, 2**32 - 1)])
    cfg = config(section(model), seed=seed, max_iterations=T, n=n, c=rng.randint(0, n - 1), io=io, **p)
    net = rand_network(rng, n) if rng.random() < 0.4 and not p.get("use_network") else None
    agents = rand_agents(rng, model, n, dim=p.get("dim", 1)) if rng.random() < 0.4 else None
    s = Sim(ck, exe, cfg, net=net, agents=agents, place=rand_place(rng))
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d" % (model, n), s.replay())
    lines = s.r.out.splitlines()
    rep = dict(s.replay(), printed=lines[:80])
    start = next((i for i, l in enumerate(lines) if "Starting simulation" in l), None)
    if start is None:
        ck.fail("no-start", "the start of the simulation is not announced", rep)
        return
    want = {"model": section(model), "max_iterations": T, "seed": seed, **C.IO, **C.NET, **cfg["network"], **cfg["io"],
            **C.DEFAULTS[section(model)], **cfg[section(model)]}
    if model.startswith("Activity"):
        nb = want["n_bots"]
        for k, v in (("bot_m", want["m"]), ("bot_opinion", 0.0), ("bot_homophily", want["homophily"])):
            want.setdefault(k, [v] * nb)
        want.setdefault("bot_activity", ("len", nb))
    judge(ck, lines[:start], want, rep)
    for what, data, name in (("network", net, "n.txt"), ("agents", agents, "a.txt")):
        m = [l for l in lines if re.match(r"Reading %s from file" % what, l)]
        path = s.r.cmd[s.r.cmd.index("-" + what[0]) + 1] if data is not None else None
        if (len(m) != 1 or not m[0].rstrip().endswith(path)) if data is not None else m:
            ck.fail("files", "%s file %r, printed: %r" % (what, path, m), rep)
    for what, path in (("Using input file:", s.r.cmd[1]), ("Output directory path set to:", s.out)):
        m = [l for l in lines if l.startswith(what)]
        if len(m) != 1 or os.path.normpath(os.path.join(s.dir, m[0][len(what):].strip())) != os.path.normpath(os.path.join(s.dir, path)):
            ck.fail("files", "printed %r, it is %r" % (m, path), rep)
    # the iterations done are known from the numbers of the files
    first = cfg["io"].get("start_output", 1)
    got = [int(m.group(1)) for m in (re.match(r"Iteration (\d+)\b", l) for l in lines[start:]) if m]
    done = sorted(int(f[len("opinions_"):-4]) - io.get("start_numbering_from", 0) for f in s.files() if f.startswith("opinions_"))
    done = [t for t in done if t > 0]
    T2 = finished_after(s.r.out)
    last = max(done) if done else T2
    if T2 is None or T2 != last or (T2 >= first) != bool(done) or (model != "DeGroot" and T2 != T):
        ck.fail("finished", "prints that it finished after %r iterations, wrote files of %r, max_iterations=%d" % (T2, done[-3:], T), rep)
    elif io.get("print_progress") and got != list(range(1, T2 + 1)):
        ck.fail("progress", "%d iterations, printed: %r" % (T2, got[:30]), rep)
    elif not io.get("print_progress") and got:
        ck.fail("progress", "progress printed though not requested: %r" % got[:30], rep)
    else:
        ck.count("progress_lines", len(got))
    ck.count("runs")
    ck.evaluated((model, n, T, repr(io), T2))
    if idx < 2:
        ck.sample({"model": model, "printed": lines[:12]})
    s.clean()


def main():
    ck = Check("C33", "random configurations: every printed setting against the one in force (the value in the file or the documented "
                      "default), in process; complete runs of all models: settings, file names, progress lines and number of "
                      "iterations against what the files of the run show. Distinct by text, or model, size and output settings",
               ["settings are recognised by their labels; additional lines are allowed",
                "the printed default of bot_activity (documented contradictorily) is judged by its length only"])
    b = build("h_cfg:asan", "seldon:asan")
    pmap(lambda s: settings(ck, b["h_cfg:asan"], s), [ck.rng.getrandbits(60) for _ in range(200 if THOROUGH else 20)])
    seeds = [ck.rng.getrandbits(60) for _ in range(4000 if THOROUGH else 400)]
    pmap(lambda t: run(ck, b["seldon:asan"], random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.violations or ck.counters.get("settings_compared", 0) > 20000 and ck.counters.get("progress_lines", 0) > 1000, "prints")
    return ck.finish()
