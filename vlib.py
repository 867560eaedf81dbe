"""Shared machinery: building the instrumented binaries from /repo's working tree, running them,
classifying how a run ended, collecting violations / known findings and writing the evidence file."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import math
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SELDON_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
NPROC = max(1, min(8, os.cpu_count() or 1))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["-std=c++20", "-w", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
FLAVOURS = {
    "asan": ["-O1", "-D_GLIBCXX_SANITIZE_VECTOR=1"] + SAN,
    "tsan": ["-O0", "-fsanitize=thread"],
    "plain": ["-O1"],
}
LIBS = ["-lfmt", "-ltomlplusplus", "-lpthread"]


class HarnessError(Exception):
    """The machinery could not do its job (exit 2): neither held nor violated."""


# ------------------------------------------------------------------ building
def _tree_files(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(d, f))
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()


def _compile(src, flags):
    """The key is the preprocessed text: whatever changes what is compiled leads to a new object."""
    cmd = ["g++"] + BASE + flags + ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(REPO, "include"),
                                   "-I" + os.path.join(VERIF, "harness")]
    r = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise HarnessError("cannot preprocess %s\n%s" % (src, r.stderr.decode("utf-8", "replace")[-3000:]))
    key = _sha(" ".join(BASE + flags), os.path.basename(src), r.stdout)
    obj = os.path.join(CACHE, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError("cannot compile %s\n%s" % (src, r.stdout[-3000:]))
        os.replace(tmp, obj)
    return obj


def lib_sources():
    return sorted(f for f in _tree_files(os.path.join(REPO, "src"))
                  if f.endswith(".cpp") and os.path.basename(f) != "main.cpp")


def build(*targets):
    """targets: 'seldon:asan', 'h_net:asan', ... -> dict target -> path of the executable."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        jobs = {}
        libs = lib_sources()
        for t in targets:
            name, flav = t.split(":")
            main = os.path.join(REPO, "src", "main.cpp") if name == "seldon" else os.path.join(VERIF, "harness", name + ".cpp")
            for s in [main] + libs:
                jobs[(s, flav)] = None
        # slow ones first
        order = sorted(jobs, key=lambda j: 0 if ("main.cpp" in j[0] or "harness" in j[0]) else 1)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {j: ex.submit(_compile, j[0], FLAVOURS[j[1]]) for j in order}
            for j, f in futs.items():
                jobs[j] = f.result()
            out = {}

            def link(t):
                name, flav = t.split(":")
                main = os.path.join(REPO, "src", "main.cpp") if name == "seldon" else os.path.join(VERIF, "harness", name + ".cpp")
                objs = [jobs[(s, flav)] for s in [main] + libs]
                exe = os.path.join(CACHE, "bin", "%s_%s_%s" % (name, flav, _sha(*objs)[:16]))
                if not os.path.exists(exe):
                    tmp = exe + ".%d.tmp" % os.getpid()
                    r = subprocess.run(["g++"] + FLAVOURS[flav] + objs + ["-o", tmp] + LIBS,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode != 0:
                        raise HarnessError("cannot link %s\n%s" % (t, r.stdout[-3000:]))
                    os.replace(tmp, exe)
                return exe

            for t, exe in zip(targets, ex.map(link, targets)):
                out[t] = exe
        out["_wall"] = time.time() - t0
        _gc()
        return out


def build_preload(name):
    """A shared object for LD_PRELOAD."""
    src = os.path.join(VERIF, "harness", name + ".c")
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    so = os.path.join(CACHE, "bin", "%s_%s.so" % (name, _sha(open(src, "rb").read())[:16]))
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", src, "-o", tmp, "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise HarnessError("cannot build %s\n%s" % (src, r.stdout[-3000:]))
        os.replace(tmp, so)
    return so


def _gc(limit=2 << 30):
    """The cache must not eat the disk: drop the oldest files when it is larger than 2 GB."""
    files = []
    for d in ("obj", "bin"):
        p = os.path.join(CACHE, d)
        for f in os.listdir(p):
            st = os.stat(os.path.join(p, f))
            files.append((st.st_mtime, st.st_size, os.path.join(p, f)))
    total = sum(f[1] for f in files)
    for mt, sz, f in sorted(files):
        if total <= limit:
            break
        if time.time() - mt > 3600:
            os.unlink(f)
            total -= sz


# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=1:handle_abort=0:hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:hard_rss_limit_mb=6000",
    "LC_ALL": "C",
}


class Run:
    __slots__ = ("rc", "out", "err", "timeout", "cmd", "cwd")

    def kind(self):
        """ok | reject | memory | crash | hang"""
        if self.timeout:
            return "hang"
        if self.rc == 0:
            return "ok"
        e = self.err
        if self.rc == 99 or "AddressSanitizer" in e or "ThreadSanitizer" in e or "runtime error:" in e \
                or ("Assertion '" in e and "glibcxx" in e.lower()) or "Assertion '" in e:
            return "memory"
        if "terminate called after throwing" in e and self.rc in (-6, 134):
            return "reject"
        if self.rc == 1:
            return "reject"
        return "crash"

    def what(self):
        for line in self.err.splitlines():
            if "what()" in line:
                return line.strip()
        for line in self.err.splitlines():
            if "ERROR:" in line or "runtime error" in line or "Assertion" in line or "WARNING: ThreadSanitizer" in line:
                return re.sub(r"0x[0-9a-f]+", "0x..", line.strip())[:300]
        return ("rc=%s " % self.rc) + self.err.strip()[-200:]


HANGS = [0]  # runs that did not end, twice
STOP = [False]  # enough is known, skip the rest of the workload
CURRENT = [None]
BUDGET = float(os.environ.get("VERIF_BUDGET", "740"))  # seconds after which no further run is begun


FLOOD = 1 << 30


def written(pid):
    """Bytes a process started here has written so far."""
    try:
        return int(re.search(r"wchar: (\d+)", open("/proc/%d/io" % pid).read()).group(1))
    except (OSError, AttributeError):
        return 0


def run(cmd, cwd=None, timeout=60, env=None, stdin=None):
    if HANGS[0] >= 2:
        timeout = min(timeout, 20)
    elif not THOROUGH:
        timeout = min(timeout, 200)  # there has to be an answer in time, whatever hangs
    e = dict(os.environ)
    e.pop("GLIBCXX_TUNABLES", None)
    e.update(SAN_ENV)
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    for attempt in (0, 1):
        if attempt and HANGS[0] >= 2:
            break
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        if "_plain_" in os.path.basename(str(cmd[0])):
            try:  # like hard_rss_limit_mb of the sanitizers
                resource.prlimit(p.pid, resource.RLIMIT_AS, (6000 << 20, 6000 << 20))
            except (OSError, ValueError):
                pass
        r = Run()
        r.cmd, r.cwd = cmd, cwd
        try:
            limit = timeout * (1 + 2 * attempt)
            if attempt and CURRENT[0] and not THOROUGH:
                limit = min(limit, max(timeout / 2, CURRENT[0].t0 + BUDGET - time.time()))
            end, inp, flood = time.time() + limit, stdin.encode() if isinstance(stdin, str) else stdin, False
            while True:
                try:
                    o, er = p.communicate(inp, timeout=max(0.01, min(1.0, end - time.time())))
                    break
                except subprocess.TimeoutExpired:
                    flood = written(p.pid) > FLOOD
                    if flood or time.time() >= end:
                        raise
            r.rc, r.out, r.err, r.timeout = p.returncode, o.decode("utf-8", "replace"), er.decode("utf-8", "replace"), False
            return r
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, er = p.communicate()
            r.rc, r.out, r.err, r.timeout = -9, o.decode("utf-8", "replace")[-2000:], er.decode("utf-8", "replace")[-2000:], True
            if flood:  # it writes without end: no second try, and what it wrote goes at once
                if cwd:
                    for f in os.listdir(cwd):
                        if os.path.isdir(os.path.join(cwd, f)):
                            shutil.rmtree(os.path.join(cwd, f), ignore_errors=True)
                break
    HANGS[0] += 1
    if HANGS[0] >= 6:
        STOP[0] = True
    return r


class BadOutput(Exception):
    """An output file is missing or cannot be read; this has been recorded as a violation already."""


def pmap(f, items, n=NPROC):
    def g(x):
        try:
            if STOP[0]:
                return None
            if CURRENT[0] and time.time() - CURRENT[0].t0 > BUDGET:
                CURRENT[0].count("skipped_for_time")
                return None
            return f(x)
        except BadOutput:
            return None

    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(g, items))


# ------------------------------------------------------------------ TOML
def tval(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(tval(x) for x in v) + "]"
    if isinstance(v, float):
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        r = repr(v)
        if "e" in r and "." not in r.split("e")[0]:
            m, ex = r.split("e")
            r = m + ".0e" + ex
        return r
    return str(v)


def toml(cfg):
    s = ""
    for sec, d in cfg.items():
        s += "[%s]\n" % sec
        for k, v in d.items():
            if v is not None:
                s += "%s = %s\n" % (k, tval(v))
        s += "\n"
    return s


def config(model, seed=1, max_iterations=5, n=10, c=3, io=None, **params):
    cfg = {"simulation": {"model": model, "rng_seed": seed},
           "io": {"n_output_network": 1, "n_output_agents": 1},
           "model": {"max_iterations": max_iterations},
           model: params,
           "network": {"number_of_agents": n, "connections_per_agent": c}}
    if io is not None:
        cfg["io"] = io
    return cfg


# ------------------------------------------------------------------ files written by seldon
def read_rows(path):
    rows = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            rows.append([x.strip() for x in line.split(",")])
    return rows


def read_agents(path):
    """-> list of lists of floats (the index column is checked and dropped)"""
    out = []
    for i, r in enumerate(read_rows(path)):
        if int(r[0]) != i:
            raise ValueError("%s: row %d has index %s" % (path, i, r[0]))
        out.append([float(x) for x in r[1:]])
    return out


def read_network(path):
    """-> list of (neighbours, weights)"""
    out = []
    for i, r in enumerate(read_rows(path)):
        if int(r[0]) != i:
            raise ValueError("%s: row %d has index %s" % (path, i, r[0]))
        k = int(r[1])
        rest = [x for x in r[2:] if x != ""]
        if len(rest) != 2 * k:
            raise ValueError("%s: row %d announces %d neighbours and has %d more columns" % (path, i, k, len(rest)))
        out.append(([int(x) for x in rest[:k]], [float(x) for x in rest[k:]]))
    return out


def write_network(path, net):
    with open(path, "w") as f:
        f.write("# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n")
        for i, (nb, w) in enumerate(net):
            f.write(", ".join([str(i), str(len(nb))] + [str(x) for x in nb] + [repr(float(x)) for x in w]) + "\n")


def write_agents(path, rows):
    with open(path, "w") as f:
        f.write("# idx_agent, data\n")
        for i, r in enumerate(rows):
            f.write(", ".join([str(i)] + [repr(x) if isinstance(x, float) else str(x) for x in r]) + "\n")


# ------------------------------------------------------------------ check context
def load_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        CURRENT[0] = self
        STOP[0], HANGS[0] = False, 0
        self.t0 = time.time()
        self.rng = random.Random("%s-%d" % (pid, SEED))
        self.evaluations = 0
        self.nontrivial = set()
        self.counters = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.inconclusive = []
        self.findings = {k: d for (p, k, d) in load_findings() if p == pid}
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        try:
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize < (1 << 30):
                base = None
        except OSError:
            base = None
        self.tmp = tempfile.mkdtemp(prefix="seldon_%s_" % pid, dir=base)
        self._n = 0
        self._lock = threading.RLock()

    def scratch(self):
        with self._lock:
            self._n += 1
        d = os.path.join(self.tmp, "r%d_%d" % (self._n, random.getrandbits(24)))
        os.makedirs(d)
        return d

    def evaluated(self, key=None, n=1):
        with self._lock:
            self.evaluations += n
            if key is not None:
                self.nontrivial.add(key if isinstance(key, (str, int)) else repr(key))

    def count(self, name, n=1):
        with self._lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def fail(self, key, desc, data=None):
        """A refuting observation. `key` identifies the specific failing thing (matched against known findings)."""
        if key in self.findings:
            self.known.setdefault(key, desc)
            return
        self.violations.append((key, desc, data))
        if len(self.violations) > 400:
            STOP[0] = True

    def inconc(self, desc):
        self.inconclusive.append(desc)

    def require(self, cond, what):
        """The workload has to have observed something; otherwise the check gives no answer."""
        if not cond:
            self.inconc("observed too little: " + what)

    def run_failed(self, r, what, data=None):
        """An accepted workload did not run to its end."""
        k = r.kind()
        d = {"cmd": r.cmd, "cwd": r.cwd, "rc": r.rc, "stderr": r.err[-4000:]}
        if data:
            d.update(data)
        self.fail("%s-run" % k, "%s: run ended with %s: %s" % (what, k, r.what()), d)

    def finish(self):
        wall = time.time() - self.t0
        for key, desc in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, self.findings[key], key))
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(rdir, f))
        seen = {}
        for key, desc, data in self.violations:
            seen.setdefault(key, []).append((desc, data))
        for i, (key, lst) in enumerate(sorted(seen.items())[:20]):
            p = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "key": key, "seed": SEED, "tier": TIER, "description": lst[0][0],
                           "occurrences": len(lst), "data": lst[0][1],
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (SEED, TIER, self.pid)},
                          f, indent=1, default=str)
            print("  %s (%d occurrences): %s" % (key, len(lst), str(lst[0][0])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": "exploration",
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.nontrivial),
                           "rule": self.rule, "samples": self.samples or ["(none)"],
                           "observed": self.counters, "known_findings_seen": sorted(self.known),
                           "inconclusive": self.inconclusive[:10]},
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(seen)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violation keys, %.1fs  %s"
              % (self.pid, TIER, SEED, self.evaluations, len(self.nontrivial), len(seen), wall,
                 json.dumps(self.counters)[:400]))
        if seen:
            return 1
        if self.inconclusive:
            print("INCONCLUSIVE: " + "; ".join(self.inconclusive[:5]))
            return 2
        return 0


# ------------------------------------------------------------------ simulation runs through the command line
def rand_place(rng, default=True):
    """Where the configuration, the input files and the output are, and how they are named on the command line."""
    return {"config": rng.choice(["c.toml", "c.toml", "./c.toml", "conf/c.toml", "a b/deep/c.d/my conf.toml"]),
            "out": rng.choice(["out", "out", "./out", "out/", "a/b/c", "x/../out2"] + ([None, None] if default else [])),
            "files": rng.choice(["", "", "in", "in put/d"]), "abs": rng.random() < 0.4, "mkdir": rng.random() < 0.4}


class Sim:
    """One run of the seldon executable in its own scratch directory."""

    def __init__(self, ck, exe, cfg, net=None, agents=None, timeout=60, env=None, keep=False, cwd=None, cfgtext=None,
                 wrapper=(), place=None):
        self.ck = ck
        self.dir = cwd or ck.scratch()
        self.cfg = cfg
        self.place = place = dict({"config": "c.toml", "out": "out", "files": ""}, **(place or {}))
        text = cfgtext if cfgtext is not None else toml(cfg)
        self.cfgpath = os.path.join(self.dir, place["config"])
        os.makedirs(os.path.dirname(self.cfgpath), exist_ok=True)
        with open(self.cfgpath, "w") as f:
            f.write(text)
        cmd = list(wrapper) + [exe, self._arg("config")]
        if place["out"] is not None:
            cmd += ["-o", self._arg("out")]
        if place.get("mkdir"):
            os.makedirs(os.path.join(self.dir, place["out"] or "output"), exist_ok=True)
        for opt, name, data, write in (("-n", "n.txt", net, write_network), ("-a", "a.txt", agents, write_agents)):
            if data is None:
                continue
            p = os.path.join(self.dir, place["files"], name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(data, (str, bytes)):
                with open(p, "wb") as f:
                    f.write(data.encode() if isinstance(data, str) else data)
            else:
                write(p, data)
            cmd += [opt, p if place.get("abs") else os.path.join(place["files"], name)]
        self.r = run(cmd, cwd=self.dir, timeout=timeout, env=env)
        self.out = os.path.normpath(os.path.join(self.dir, place["out"] if place["out"] is not None
                                                 else os.path.join(os.path.dirname(place["config"]), "output")))

    def _arg(self, k):
        return os.path.join(self.dir, self.place[k]) if self.place.get("abs") else self.place[k]

    def replay(self):
        d = {"config": toml(self.cfg) if self.cfg else None}
        d["place"] = self.place
        for f in ("n.txt", "a.txt"):
            p = os.path.join(self.dir, self.place["files"], f)
            if os.path.exists(p) and os.path.getsize(p) < 20000:
                d[f] = open(p, errors="replace").read()
        return d

    def files(self):
        return sorted(os.listdir(self.out)) if os.path.isdir(self.out) else []

    def _read(self, f, name):
        try:
            return f(os.path.join(self.out, name))
        except (ValueError, IndexError, OSError) as e:
            self.ck.fail("output-unreadable", "%s cannot be read: %s; the run wrote %s" % (name, e, self.files()[:20]), self.replay())
            raise BadOutput(name)

    def agents(self, i):
        return self._read(read_agents, "opinions_%d.txt" % i)

    def network(self, i):
        return self._read(read_network, "network_%d.txt" % i)

    def everything(self):
        return sorted(os.path.join(a, f) for a, _, fs in os.walk(self.dir) for f in fs)

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)
