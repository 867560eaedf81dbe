"""C07: which files a run writes, when, and what is in them."""
import os
import random

from vlib import rand_place, Check, Sim, build, config, pmap, THOROUGH
from .common import *


def expected(T, io):
    s0 = io.get("start_numbering_from", 0)
    files = {}
    if io.get("output_initial", True):
        files["opinions_%d.txt" % s0] = ("opinions", 0)
        files["network_%d.txt" % s0] = ("network", 0)
    st = io.get("start_output", 1)
    for what, key in (("opinions", "n_output_agents"), ("network", "n_output_network")):
        k = io.get(key)
        if k:
            for t in range(1, T + 1):
                if t >= st and t % k == 0:
                    files["%s_%d.txt" % (what, t + s0)] = (what, t)
    return files


def content(ck, path):
    return open(path, "rb").read()


def one(ck, exe, rng, idx):
    model = rng.choice(MODELS)
    n = rng.choice([1, 2, 4, 9])
    T = rng.choice([0, 1, 2, 3, 7, 12, 25])
    p = rand_params(rng, model, n)
    if model == "DeGroot" and rng.random() < 0.5:
        p["convergence"] = rng.choice([1e-2, 1e-3])  # stops earlier
    seed = rng.randint(0, 10**6)
    c = rng.randint(0, n - 1)
    full = {"n_output_agents": 1, "n_output_network": 1}
    ref = Sim(ck, exe, config(section(model), seed=seed, max_iterations=T, n=n, c=c, io=full, **p))
    if ref.r.kind() != "ok":
        return ck.run_failed(ref.r, "%s n=%d" % (model, n), ref.replay())
    Tr = finished_after(ref.r.out)
    if Tr is None:
        Tr = len([f for f in ref.files() if f.startswith("opinions")]) - 1
    if model != "DeGroot" and Tr != T or Tr > T:
        ck.fail("iterations", "%s: max_iterations=%d, but %d iterations" % (model, T, Tr), ref.replay())
    want = expected(Tr, full)
    if sorted(want) != ref.files():
        ck.fail("file-set", "%s n=%d T=%d full output: missing %r, unexpected %r" % (
            model, n, Tr, sorted(set(want) - set(ref.files()))[:5], sorted(set(ref.files()) - set(want))[:5]), ref.replay())
        return
    ck.count("reference_runs")
    for k in range(4):
        io = {}
        for key in ("n_output_agents", "n_output_network"):
            if rng.random() < 0.75:
                io[key] = rng.choice([1, 1, 2, 3, 5, max(1, T), T + 1, 1000, 2**32, 2**32 + 1])
        if rng.random() < 0.5:
            io["start_output"] = rng.choice([1, 2, 3, max(1, T), T + 1, 1000, 10**7, 2**40, 2**63 - 1])
        if rng.random() < 0.5:
            io["start_numbering_from"] = rng.choice([0, 1, 5, 10**6, 10**12, 2**32 - 3])
        if rng.random() < 0.5:
            io["output_initial"] = rng.random() < 0.5
        if rng.random() < 0.5:
            io["print_progress"] = rng.random() < 0.5
        d = ck.scratch()
        place = rand_place(rng)
        stale = rng.random() < 0.5
        if stale:  # longer files of an earlier run in the same directory
            od = os.path.join(d, place["out"] if place["out"] is not None else os.path.join(os.path.dirname(place["config"]), "output"))
            os.makedirs(od)
            for name in expected(Tr, io):
                with open(os.path.join(od, name), "w") as f:
                    f.write("9, 9, stale\n" * 500)
        mine = {}
        if stale:  # and other files, which the run has nothing to do with
            for name in rng.sample(["opinions_%d.bak" % rng.randint(0, 3), "opinions_77777.txt", "network_77777.txt", "notes.txt", "opinions_1.txt~",
                                    "opinions_-1.txt", "network.txt", "opinions_01.txt", "opinions_1.txt.old", ".hidden", "config.toml", "conf.toml"], 3):
                mine[name] = "my %s\n" % name * 50
                open(os.path.join(od, name), "w").write(mine[name])
        s = Sim(ck, exe, config(section(model), seed=seed, max_iterations=T, n=n, c=c, io=io, **p), cwd=d, place=place)
        if s.r.kind() != "ok":
            ck.run_failed(s.r, "%s n=%d io=%r" % (model, n, io), s.replay())
            continue
        want = expected(Tr, io)
        got = [f for f in s.files() if f not in mine or f in want]
        for name, text in mine.items():
            path = os.path.join(s.out, name)
            if name not in want and (not os.path.exists(path) or open(path).read() != text):
                ck.fail("others", "%s n=%d %r: the file %s, which is not of this run, is %s" % (
                    model, n, io, name, "changed" if os.path.exists(path) else "removed"), s.replay())
            ck.count("other_files_kept")
        inputs = {os.path.normpath(s.cfgpath)}
        extra = [f for f in s.everything() if f not in inputs and os.path.dirname(f) != s.out]
        if extra:
            ck.fail("elsewhere", "%s n=%d %r: files written outside the output directory %s: %s" % (model, n, place, s.out, extra[:5]), s.replay())
        if sorted(want) != got:
            ck.fail("file-set", "%s n=%d, %d iterations, %r: missing %r, unexpected %r" % (
                model, n, Tr, io, sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]), s.replay())
            continue
        for name, (what, t) in want.items():
            if content(ck, os.path.join(s.out, name)) != content(ck, os.path.join(ref.out, "%s_%d.txt" % (what, t))):
                ck.fail("content", "%s n=%d %r: %s is not the %s of iteration %d of the same run with full output"
                        % (model, n, io, name, what, t), s.replay())
                break
            ck.count("files_compared")
        T2 = finished_after(s.r.out)
        if T2 is not None and T2 != Tr:
            ck.fail("iterations", "%s: %r makes the run stop after %d instead of %d iterations" % (model, io, T2, Tr), s.replay())
        ck.evaluated((model, n, T, Tr, repr(sorted(io.items())), stale))
        if idx < 2:
            ck.sample({"model": model, "iterations": Tr, "io": io, "files": got[:8]})
        s.clean()
    ref.clean()


def long_run(ck, exe, rng, idx):
    """many iterations of one or two agents, with few files"""
    model = rng.choice(["DeGroot", "DeGroot", "Deffuant", "ActivityDriven"])
    n = rng.choice([1, 2]) if model != "Deffuant" else 2
    T = rng.choice([300, 1000, 40000, 70000, 70000])
    p = {"convergence": 0.0} if model == "DeGroot" else {"m": 1, "dt": 0.001} if model == "ActivityDriven" else {}
    io = {"n_output_agents": rng.choice([T // 3, 32768, 65536, 65537, 255, 257] if T > 1000 else [T // 7, 128, 255, 256]),
          "n_output_network": rng.choice([T, T // 2, 33333]), "start_output": rng.choice([1, T // 2, 260, 65536]),
          "start_numbering_from": rng.choice([0, 0, 3, 2**31 - 5, 2**32 + 7])}
    s = Sim(ck, exe, config(model, seed=1, max_iterations=T, n=n, c=1, io=io, **p), timeout=200)
    if s.r.kind() != "ok":
        return ck.run_failed(s.r, "%s n=%d %d iterations" % (model, n, T), s.replay())
    want, got = expected(T, io), s.files()
    if sorted(want) != got:
        ck.fail("file-set", "%s n=%d, %d iterations, %r: missing %r, unexpected %r" % (
            model, n, T, io, sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5]), s.replay())
    ck.count("long_runs")
    ck.evaluated((model, n, T, repr(io)))
    s.clean()


def main():
    ck = Check("C07", "random runs of all models; each is repeated with random output settings (intervals, start_output, numbering, "
                      "output_initial, stale files in the directory); the set of files is compared with the schedule and each file "
                      "byte by byte with the run that writes everything; distinct by model, size, iterations, output settings",
               ["the directory is given with -o"])
    exe = build("seldon:asan")["seldon:asan"]
    N = 3000 if THOROUGH else 350
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(60 if THOROUGH else 12)]
    pmap(lambda t: long_run(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("files_compared", 0) > 2000, "files")
    return ck.finish()
