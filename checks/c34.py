"""C34: what a run takes it gives back, and it does not take more the longer it runs."""
import os
import random
import tempfile

import vlib
from vlib import Check, build, config, pmap, toml, write_agents, write_network, THOROUGH
from .common import *
from .c02 import break_agents, break_network, still_valid

SLACK = 12000  # bytes that the capacity of the lists may still grow after the first tenth of the iterations


def directory(exe):
    """A directory that can be opened and has a size; not all file systems give them one."""
    for d in (os.path.dirname(exe), tempfile.gettempdir(), "/usr", "/"):
        fd = os.open(d, os.O_RDONLY)
        try:
            if os.lseek(fd, 0, os.SEEK_END) > 1 << 40:
                return d
        except OSError:
            pass
        finally:
            os.close(fd)
    return os.path.dirname(exe)


def sparse(f):
    """A file that is larger than any memory, but takes no space."""
    try:
        with open(f, "w") as x:
            os.truncate(x.fileno(), 1 << 62)
        return True
    except OSError:
        return False


def batch(ck, exe, seed, N=10):
    rng = random.Random(seed)
    d = ck.scratch()
    lines, infos = [], []
    for i in range(N):
        model = rng.choice(MODELS)
        n = rng.choice([1, 2, 3, 4, 6, 9, 9, 49])
        p = rand_params(rng, model, n)
        T = rng.choice([5000, 5000, 20000]) if n <= 4 else 5000 if n < 20 else 0
        cfg = config(section(model), seed=rng.randint(0, 10**6), max_iterations=rng.choice([0, 1, 5]), n=n, c=rng.randint(0, n - 1), **p)
        if model == "DeGroot":
            cfg[model]["convergence"] = 0.0
        cfg["io"]["print_progress"] = rng.random() < 0.3
        files = {"n": "-", "a": "-"}
        bad = rng.random() < 0.35
        kind = rng.choice(["network", "agents", "config", "missing", "directory", "huge", "bots", "lattice"]) if bad else ""
        f = os.path.join(d, "%d" % i)
        if rng.random() < 0.4 or kind == "network":
            files["n"] = f + ".net"
            net = rand_network(rng, n, density=rng.uniform(0.2, 1))
            if kind == "network":
                net[0] = (list(range(n)), [0.5] * n)
                text = break_network(rng, net)[0]
                if still_valid(text, n):
                    kind = ""
                open(files["n"], "w").write(text)
            else:
                write_network(files["n"], net)
        if rng.random() < 0.4 or kind == "agents":
            files["a"] = f + ".agents"
            rows = rand_agents(rng, model, n, dim=p.get("dim", 1))
            if kind == "agents":
                open(files["a"], "w").write(break_agents(rng, rows, model)[0])
            else:
                write_agents(files["a"], rows)
        if kind == "missing":
            files[rng.choice("na")] = f + ".nowhere"
        if kind in ("directory", "huge"):
            which = rng.choice("na")
            files[which] = f + "." + kind
            target = files[which]
            if kind == "directory" or not sparse(target):
                target = directory(exe)
            for k in range(7):
                if not os.path.exists("%s.%d" % (files[which], k)):
                    os.symlink(target, "%s.%d" % (files[which], k))
        text = toml(cfg)
        if kind == "config":
            text = rng.choice([text.replace("max_iterations =", "max_iterations = ="), text.replace("rng_seed =", "rng_seed = 'x' #"),
                               text.replace('model = "', 'model = "x'), text.replace("n_output_agents = 1", "n_output_agents = 0")])
        if kind == "bots" and model.startswith("Activity"):
            text = text.replace("[%s]\n" % model, "[%s]\nbot_m = [-1]\nn_bots = 1\n" % model) if "n_bots" not in text else \
                text.replace("bot_m = [", "bot_m = [-3, ")
        if kind == "lattice" and model.startswith("Deffuant") and "use_network" not in text:
            text = text.replace("[Deffuant]\n", "[Deffuant]\nuse_network = true\n").replace("number_of_agents = %d" % n, "number_of_agents = 7")
        open(f + ".toml", "w").write(text)
        os.makedirs(f + ".out")
        lines.append(" ".join([f + ".toml", files["n"], files["a"], f + ".out", str(T)]))
        infos.append((model, n, T, kind, text))
    open(os.path.join(d, "list"), "w").write("\n".join(lines) + "\n")
    r = vlib.run([exe, os.path.join(d, "list")], timeout=300, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})  # chunks in the cache count as in use
    if r.rc != 0 or not r.out.rstrip().endswith("DONE"):
        return ck.run_failed(r, "simulations one after another", {"configs": [x[4] for x in infos]})
    for line in r.out.splitlines():
        t = line.split()
        if t[0] != "RES":
            continue
        model, n, T, kind, text = infos[int(t[1])]
        b0, b1, f0, f1, early, late = map(int, t[3:])
        lab = "%s n=%d %s %s" % (model, n, kind, t[2])
        rep = {"text": text, "line": lines[int(t[1])]}
        if b1 > b0:
            ck.fail("memory-kept", "%s: four more complete simulations leave %d bytes behind" % (lab, b1 - b0), rep)
        if f1 > f0:
            ck.fail("files-kept", "%s: four more complete simulations leave %d files open" % (lab, f1 - f0), rep)
        if t[2] == "ok" and late > early + SLACK:
            ck.fail("memory-grows", "%s: from iteration %d to %d the memory in use grows from %d to %d bytes" % (lab, T // 10, T, early, late), rep)
        ck.count("simulations_" + t[2], 6)
        ck.count("iterations", T if t[2] == "ok" else 0)
        with ck._lock:
            ck.counters["largest_growth"] = max(ck.counters.get("largest_growth", 0), late - early)
        ck.evaluated((model, n, T, kind, text))
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def main():
    ck = Check("C34", "random simulations of all models (with and without files, a third with malformed input), six times each in one "
                      "process: bytes allocated and files open afterwards; 5000 or 20000 iterations of each: bytes allocated after the "
                      "first tenth and at the end. Distinct by configuration",
               ["memory is what malloc has handed out (mallinfo2)", "lists may keep capacity: growth below 12000 bytes is not judged"])
    exe = build("h_res:plain")["h_res:plain"]
    pmap(lambda s: batch(ck, exe, s), [ck.rng.getrandbits(60) for _ in range(320 if THOROUGH else 32)])
    ck.require(ck.violations or ck.counters.get("simulations_ok", 0) > 500 and ck.counters.get("simulations_refused", 0) > 100, "simulations")
    return ck.finish()
