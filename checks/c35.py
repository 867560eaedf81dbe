"""C35: failures of the file system are reported; what was written before stays."""
import errno
import os
import random
import re
import shutil
import signal
import subprocess
import time

import vlib
from vlib import Check, Sim, build, build_preload, config, pmap, rand_place, THOROUGH
from .common import *


def snapshot(d):
    """name -> content; None for what is not a file that can be read"""
    out = {}
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            out[f] = open(p, "rb").read() if os.path.isfile(p) and not os.path.islink(p) else None
    return out


def number(name):
    m = re.search(r"^(?:opinions|network)_(\d+)\.txt$", name)
    return int(m.group(1)) if m else -1


def case(rng):
    """A valid run with a few output files."""
    model = rng.choice(MODELS)
    n = rng.choice([3, 9, 20, 60, 150])
    p = rand_params(rng, model, n)
    p.pop("use_network", None)
    if model == "DeGroot":
        p["convergence"] = 1e-300
    T = rng.choice([1, 2, 3, 5, 8])
    io = {"n_output_agents": rng.choice([1, 1, 2]), "n_output_network": rng.choice([None, 1, 1, 3]), "output_initial": rng.random() < 0.8,
          "start_numbering_from": rng.choice([0, 0, 7]), "print_progress": rng.random() < 0.3}
    io = {k: v for k, v in io.items() if v is not None}
    cfg = config(section(model), seed=rng.randint(0, 10**6), max_iterations=T, n=n, c=rng.choice([1, 3, min(40, n - 1)]), io=io, **p)
    net = rand_network(rng, n, density=rng.choice([None, 0.2])) if rng.random() < 0.5 else None
    agents = rand_agents(rng, model, n, dim=p.get("dim", 1)) if rng.random() < 0.5 else None
    return model, cfg, net, agents


def judge(ck, what, r, ref, out, must=None, upto=None):
    """must: True the run has to end with an error, False it has to succeed, None whichever it says has to be true.
    upto: files with a smaller iteration number have been complete before the failure."""
    k = r.kind()
    got = snapshot(out)
    rep = {"what": what, "cmd": r.cmd, "rc": r.rc, "stderr": r.err[-1500:], "files": {f: None if c is None else len(c) for f, c in got.items()},
           "expected": {f: len(c) for f, c in ref.items()}}
    if k == "ok":
        ck.count("succeeded")
        if must is True:
            ck.fail("failure-passed-over", "%s: the run succeeds" % what, rep)
        elif got != ref:
            bad = sorted(f for f in set(ref) | set(got) if ref.get(f) != got.get(f))
            ck.fail("success-with-wrong-files", "%s: the run succeeds, but these files are missing or differ: %s" % (what, bad[:6]), rep)
    elif k == "reject":
        ck.count("ended_with_an_error")
        if must is False:
            ck.fail("refused", "%s: the run ends with an error: %s" % (what, r.what()), rep)
        if not r.err.strip():
            ck.fail("no-message", "%s: the run ends with status %s and no message" % (what, r.rc), rep)
    else:
        ck.run_failed(r, what, rep)
        return
    if upto is not None:
        bad = sorted(f for f, c in ref.items() if number(f) < upto and got.get(f) != c)
        if bad:
            ck.fail("earlier-files", "%s: files of earlier iterations are missing or not complete: %s" % (what, bad[:6]), rep)
        ck.count("earlier_files_compared", sum(number(f) < upto for f in ref))


def inject(ck, exe, so, rng, idx):
    model, cfg, net, agents = case(rng)
    s = Sim(ck, exe, cfg, net=net, agents=agents, timeout=120)
    ref = snapshot(s.out)
    if s.r.kind() != "ok" or not ref:
        if s.r.kind() != "ok":
            ck.run_failed(s.r, "%s without a fault" % model, s.replay())
        s.clean()
        return
    s.clean()
    names = sorted(ref, key=lambda f: (number(f), f))
    name = rng.choice(names)
    kind = rng.choice(["limit", "limit", "full", "full", "directory", "dangling", "outdir", "shim-open", "shim-write", "shim-write", "shim-write",
                       "shim-read", "shim-read", "shim-read", "shim-close", "shim-short", "shim-short", "shim-kill", "shim-kill"])
    d = ck.scratch()
    out = os.path.join(d, "out")
    args = dict(net=net, agents=agents, timeout=120, cwd=d)
    what = "%s, %s" % (model, kind)
    if kind == "limit":
        # no file may become larger than that (what a quota or a full disk do)
        sizes = sorted(len(c) for c in ref.values())
        blocks = rng.choice([1, rng.randint(1, max(1, sizes[-1] // 512)), rng.choice(sizes) // 512, rng.choice(sizes) // 512 + 1, sizes[-1] // 512])
        blocks = max(1, blocks)
        big = [f for f in names if len(ref[f]) > blocks * 512]
        s = Sim(ck, exe, cfg, wrapper=("sh", "-c", "trap '' XFSZ; ulimit -f %d; exec \"$@\"" % blocks, "sh"), **args)
        judge(ck, what + " of %d bytes for files of %s" % (blocks * 512, sizes), s.r, ref, out, must=None if big else False,
              upto=min(number(f) for f in big) if big else None)
        ck.count("fault_file_size_limit", bool(big))
    elif kind in ("full", "directory", "dangling"):
        os.makedirs(out)
        p = os.path.join(out, name)
        if kind == "full":
            os.symlink("/dev/full", p)
        elif kind == "directory":
            os.makedirs(p)
        else:
            os.symlink(os.path.join(d, "no", "such", "place"), p)
        s = Sim(ck, exe, cfg, **args)
        judge(ck, what + " in place of " + name, s.r, ref, out, upto=number(name))
        ck.count("fault_" + kind)
    elif kind == "outdir":
        f = os.path.join(d, "file")
        open(f, "w").write("x")
        os.symlink(os.path.join(d, "no", "such"), os.path.join(d, "link"))
        place = {"out": rng.choice(["file", "file/sub", "link", "x" * 300, "file/a/b"])}
        s = Sim(ck, exe, cfg, place=place, **args)
        judge(ck, what + " " + place["out"][:20], s.r, ref, out)
        if open(f).read() != "x":
            ck.fail("overwritten", "the file %s given as the output directory has been overwritten" % f)
        ck.count("fault_output_directory")
    else:
        op = kind[5:]
        inputs = ["c.toml"] + (["n.txt"] if net is not None else []) + (["a.txt"] if agents is not None else [])
        where = rng.choice(inputs) if op == "read" else rng.choice(inputs + ["/out/"]) if op in ("short", "open") else "/out/"
        if op in ("write", "close", "open") and where == "/out/" and rng.random() < 0.6:
            where = name  # a certain file
        n = 1 if rng.random() < 0.3 or (op == "read" and rng.random() < 0.6) else rng.randint(1, 3 if op == "read" or where == name else len(ref) + 1)
        log = os.path.join(d, "log")
        e = rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG] if op != "open" else [errno.EACCES, errno.EMFILE, errno.EIO, errno.ENOSPC])
        env = {"LD_PRELOAD": so, "FAULT_OP": op, "FAULT_N": str(n), "FAULT_ERR": str(e), "FAULT_PATH": where, "FAULT_LOG": log,
               "FAULT_ONCE": rng.choice("01")}
        s = Sim(ck, exe, cfg, env=env, **args)
        hits = os.path.getsize(log) if os.path.exists(log) else 0
        what += " of %s at call %d with errno %d (%d injected)" % (where, n, e, hits)
        ck.count("shim_%s_injected" % op, hits)
        if op == "kill":
            if hits and s.r.rc == -signal.SIGKILL:
                killed(ck, what, snapshot(out), ref, s.replay())
            else:
                judge(ck, what, s.r, ref, out)
        elif op == "short" or not hits:
            judge(ck, what, s.r, ref, out, must=False)
        else:
            judge(ck, what, s.r, ref, out, must=True if op in ("write", "close") or where == name else None,
                  upto=number(name) if where == name else None)
    ck.evaluated((kind, model, name, repr(sorted(cfg["io"].items())), repr(cfg["network"])))
    if idx < 3:
        ck.sample({"fault": what, "ended": s.r.kind(), "stderr": s.r.err[-200:]})
    shutil.rmtree(d, ignore_errors=True)


def killed(ck, what, got, ref, rep):
    """All files but the one that was being written are complete."""
    ck.count("killed")
    got = {f: c for f, c in got.items() if number(f) >= 0}  # anything else may be a temporary file
    wrong = sorted(f for f, c in got.items() if ref.get(f) != c)
    last = max([number(f) for f in got] or [-1])
    lost = sorted(f for f in ref if number(f) < last and f not in got)
    rep = dict(rep or {}, got={f: len(c or b"") for f, c in got.items()}, ref={f: len(c) for f, c in ref.items()})
    if len(wrong) > 1 or (wrong and number(wrong[0]) < last):
        ck.fail("killed-incomplete", "%s: these files are not what the run writes: %s, the last iteration is %d" % (what, wrong[:8], last), rep)
    if lost:
        ck.fail("killed-missing", "%s: files of earlier iterations than %d are missing: %s" % (what, last, lost[:8]), rep)
    ck.count("files_after_kill", len(got))


def kill(ck, exe, rng, idx):
    """A run without a last iteration is killed at some moment."""
    model, cfg, net, agents = case(rng)
    if model == "DeGroot":  # it converges
        cfg["DeGroot"]["convergence"] = 0.0
    cfg["io"]["print_progress"] = False
    d = ck.scratch()
    n = cfg["network"]["number_of_agents"]
    with open(os.path.join(d, "c.toml"), "w") as f:
        c = {k: dict(v) for k, v in cfg.items()}
        del c["model"]["max_iterations"]
        f.write(vlib.toml(c))
    # (it must not go on if something ends this program)
    cmd = (["setpriv", "--pdeathsig", "KILL"] if shutil.which("setpriv") else []) + [exe, "c.toml", "-o", "out"]
    if net is not None:
        vlib.write_network(os.path.join(d, "n.txt"), net)
        cmd += ["-n", "n.txt"]
    p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    out = os.path.join(d, "out")
    want = rng.randint(1, 40)
    sig = rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT])
    end = time.time() + 60
    while time.time() < end and p.poll() is None:
        try:
            if len(os.listdir(out)) >= want:
                break
        except OSError:
            pass
        time.sleep(0.001)
    time.sleep(rng.random() * 0.01)
    ended = p.poll() is not None
    if not ended:
        try:
            os.killpg(p.pid, sig)
        except ProcessLookupError:
            pass
    try:
        _, err = p.communicate(timeout=30)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        _, err = p.communicate()
    if os.path.isdir(out) and len(os.listdir(out)) > 8000:  # it was not ended in time
        ck.count("kills_too_late")
        return shutil.rmtree(d, ignore_errors=True)
    got = snapshot(out)
    first = cfg["io"].get("start_numbering_from", 0)
    if ended:
        if model != "DeGroot":
            ck.fail("ended", "%s: a run without max_iterations ends by itself with status %s: %s" % (model, p.returncode, err[-300:]), {"config": vlib.toml(c)})
    elif len(got) < want:
        ck.fail("no-files", "%s: after a minute there are only %d files of %d" % (model, len(got), want), {"config": vlib.toml(c)})
    else:
        cfg["model"]["max_iterations"] = max(number(f) for f in got) - first
        if cfg["model"]["max_iterations"] <= 3000:
            s = Sim(ck, exe, cfg, net=net, timeout=120)
            if s.r.kind() == "ok":
                # (the files of the last iteration that had not been begun are in neither)
                killed(ck, "%s, signal %d after %d files" % (model, sig, len(got)), got, snapshot(s.out), s.replay())
                ck.evaluated(("kill", model, n, want, sig))
            s.clean()
    shutil.rmtree(d, ignore_errors=True)


def main():
    ck = Check("C35", "random valid runs of all models with one fault: a limit for the size of files (as a quota), /dev/full, a directory or a "
                      "dangling link in the place of an output file, impossible output directories, and, injected with LD_PRELOAD, the n-th "
                      "opening, reading, writing or closing of an input or output file fails (ENOSPC, EIO, EDQUOT, EFBIG, EACCES, EMFILE), "
                      "all reads and writes are interrupted and partial, or the process is killed there; runs without a last iteration "
                      "killed at a random moment. The files are compared with those of the same run without the fault; distinct by fault, file and run",
               ["what is printed is not judged under faults", "of a killed run, the file that is being written may be incomplete"])
    exe = build("seldon:plain")["seldon:plain"]
    so = build_preload("fault")
    N = 6000 if THOROUGH else 900
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: inject(ck, exe, so, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    seeds = [ck.rng.getrandbits(60) for _ in range(600 if THOROUGH else 100)]
    pmap(lambda t: kill(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    for k in ("fault_file_size_limit", "fault_full", "fault_directory", "fault_dangling", "fault_output_directory"):
        ck.require(ck.violations or ck.counters.get(k, 0) > 10, k)
    ck.require(ck.violations or ck.counters.get("files_after_kill", 0) > 200, "killed runs")
    return ck.finish()
