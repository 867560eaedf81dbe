#!/usr/bin/env python3
"""Runs checks against changed copies of the repository: mutate.py [name-regex] [extra check ids]. Development only.
mutants.txt: blocks of  '== name C01,C02 file'  '<<<' old '---' new '>>>'"""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutw"


def load(path):
    t = open(path).read()
    out = []
    for m in re.finditer(r"^== (\S+) (\S+)\n((?:@ \S+\n<<<\n.*?\n---\n.*?\n?>>>\n)+)", t, re.S | re.M):
        edits = re.findall(r"@ (\S+)\n<<<\n(.*?)\n---\n(.*?)\n?>>>\n", m.group(3), re.S)
        out.append((m.group(1), m.group(2).split(","), edits))
    return out


def run(mt):
    name, ids, edits = mt
    d = os.path.join(W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for s in ("include", "src"):
        shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/" + s, d + "/" + s)
    for f, old, new in edits:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) < 1:
            return name, "TEXT NOT FOUND in %s: %r" % (f, old[:50])
        open(p, "w").write(t.replace(old, new, 1))
    res = []
    for c in ids:
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), c], env=dict(os.environ, SELDON_REPO=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        k = re.findall(r"^  (\S+) \(\d+ occ", r.stdout, re.M)
        res.append("%s:%s%s" % (c, {0: "QUIET", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode), k[:3] if k else ""))
        if r.returncode not in (0, 1):
            res.append(r.stdout[-300:])
    shutil.rmtree(d, ignore_errors=True)
    return name, " ".join(res)


if __name__ == "__main__":
    ms = load(os.path.join(HERE, "tools", "mutants.txt"))
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    ms = [m for m in ms if re.search(pat, m[0])]
    if len(sys.argv) > 2:
        ms = [(a, sys.argv[2].split(","), e) for a, _, e in ms]
    with cf.ThreadPoolExecutor(3) as ex:
        for name, r in ex.map(run, ms):
            print(name, r, flush=True)
