"""C02: malformed input is refused before anything is simulated, and no input whatsoever leads to a memory error or crash."""
import os
import random

import vlib
from vlib import Check, Sim, build, config, pmap, THOROUGH, toml
from .common import *
from . import cfg as C


def base(rng, model, n):
    p = rand_params(rng, model, n, bots=0, lattice=rng.random() < 0.3 if n in (1, 4, 9) else False)
    cfg = config(section(model), seed=rng.randint(0, 10**6), max_iterations=rng.choice([1, 2, 3]), n=n, c=min(2, n - 1), **p)
    return cfg, p.get("dim", 1)


def net_text(net):
    return "# idx_agent, n_neighbours_in, indices_neighbours_in[...], weights_in[...]\n" + "".join(
        ", ".join([str(i), str(len(nb))] + [str(x) for x in nb] + [repr(float(x)) for x in w]) + "\n" for i, (nb, w) in enumerate(net))


def agent_text(rows):
    return "# idx_agent, data\n" + "".join(", ".join([str(i)] + [str(x) for x in r]) + "\n" for i, r in enumerate(rows))


def break_network(rng, net):
    """-> (text, what is wrong)"""
    n = len(net)
    rows = [[str(i), str(len(nb))] + [str(x) for x in nb] + [repr(float(x)) for x in w] for i, (nb, w) in enumerate(net)]
    cand = [i for i in range(n) if net[i][0]]
    i = rng.choice(cand)
    k = len(net[i][0])
    kind = rng.choice(["index-large", "index-negative", "index-text", "weight-missing", "weight-extra", "weight-text", "count-text",
                       "count-large", "count-small", "count-negative", "count-missing", "count-gone", "only-negative", "blank"])
    col = 2 + rng.randrange(k)
    if kind == "index-large":
        rows[i][col] = str(rng.choice([n, n + 1, 10 * n, 2**31 - 1, 2**31, 10**30]))
    elif kind == "index-negative":
        rows[i][col] = str(rng.choice([-1, -n, -2**31]))
    elif kind == "index-text":
        rows[i][col] = rng.choice(["x", "", " ", "nan", "#1"])
    elif kind == "weight-missing":
        del rows[i][-rng.randint(1, k):]
    elif kind == "weight-extra":
        rows[i] += ["0.5"] * rng.randint(1, 3)
    elif kind == "weight-text":
        rows[i][2 + k + rng.randrange(k)] = rng.choice(["x", "", " ", "--1", "1e999", "-1e400"])
    elif kind == "count-text":
        rows[i][1] = rng.choice(["x", "", " ", "99999999999999"])
    elif kind == "count-large":
        rows[i][1] = str(k + rng.choice([1, 2, k, 1000, 2**31 - 1]))
    elif kind == "count-small":
        rows[i][1] = str(rng.randrange(k))
    elif kind == "count-negative":
        rows[i][1] = str(rng.choice([-1, -2, -2**31]))
    elif kind == "count-gone":
        i = rng.randrange(n)
        rows[i] = rows[i][:1]
    elif kind == "only-negative":
        i = rng.randrange(n)
        rows[i] = [rows[i][0], str(rng.choice([-1, -1, -2, -3, -2**31]))]
    elif kind == "blank":
        rows.insert(rng.choice([i, n]), [rng.choice([" ", "   ", "\t"])])
    else:
        rows[i] = rows[i][:1] + [""]
    return "".join(", ".join(r) + "\n" for r in rows), kind


def still_valid(text, n):
    """Whether a strict reading of a network file would accept the text (then it need not be refused)."""
    try:
        rows = [[x.strip() for x in l.split(",")] for l in text.splitlines() if l and not l.startswith("#")]
        for r in rows:
            k = int(r[1])
            if k < 0 or len(r) != 2 + 2 * k and not (k == 0 and len(r) == 2):
                return False
            if any(not 0 <= int(x) < len(rows) for x in r[2:2 + k]):
                return False
            [float(x) for x in r[2 + k:]]
        return True
    except (ValueError, IndexError):
        return False


def break_agents(rng, rows, model):
    n = len(rows)
    rows = [list(r) for r in rows]
    kind = rng.choice(["fewer", "more", "empty", "text", "one", "no-data"] + (["no-activity"] if len(rows[0]) == 3 and model == "ActivityDriven" else [])
                      + (["dimension"] * 2 if model == "DeffuantVector" and n > 1 else []))
    if kind == "fewer" and n > 1:
        rows = rows[:rng.randrange(1, n)]
    elif kind == "more" or kind == "fewer":
        rows += [rows[0]] * rng.randint(1, 4)
    elif kind == "empty":
        rows = []
    elif kind == "text":
        i = rng.randrange(n)
        rows[i][rng.randrange(len(rows[i]))] = rng.choice(["x", "-", "#", "e5"] + ([] if model == "DeffuantVector" else ["1e400", "-1e400", "-1e999"]))
    elif kind == "no-data":
        i = rng.randrange(n)
        rows[i] = []
    elif kind == "dimension":
        i = rng.randrange(n)
        rows[i] = rows[i] + [1] * rng.choice([1, 1, 3]) if len(rows[i]) == 1 or rng.random() < 0.5 else rows[i][:-1]
    elif kind == "no-activity":
        i = rng.randrange(n)
        rows[i] = rows[i][:1]
    else:
        rows = rows[:-1]
    return agent_text(rows), kind


def written(s):
    return [f for f in s.files() if f.startswith(("opinions_", "network_"))]


def must_reject(ck, exe, rng, idx):
    model = rng.choice(MODELS)
    n = rng.choice([2, 3, 5, 9, 9, 25, 60])
    cfg, dim = base(rng, model, n)
    net = rand_network(rng, n, density=rng.choice([0.15, 0.5, 1.0, rng.uniform(0.2, 1)]))
    if not any(nb for nb, _ in net):
        net[0] = ([1], [0.5])
    rows = rand_agents(rng, model, n, dim=dim)
    what = rng.choice(["network", "network", "network", "agents", "agents", "config", "missing-network", "missing-agents", "missing-config",
                       "no-arguments", "unknown-option"])
    if model.startswith("Deffuant") and rng.random() < 0.25:
        what = "lattice"
    kw = {}
    if what == "lattice":
        e = rng.choice([1, 2, 3, 4, 7, 12, 12, 30, 57])
        k = rng.choice([e * e + 1, e * e + 2 * e, rng.randint(e * e + 1, (e + 1) ** 2 - 1)])
        cfg["network"]["connections_per_agent"] = rng.choice([0, 0, 2])
        cfg["network"]["number_of_agents"] = k
        cfg[section(model)]["use_network"] = True
        kind = "size"
        if rng.random() < 0.3:
            cfg["network"]["number_of_agents"] = e * e
            kw = {"net": rand_network(rng, k)}
        if rng.random() < 0.3:
            kw["agents"] = rand_agents(rng, model, k, dim=dim)
    elif what == "network":
        text, kind = break_network(rng, net)
        if still_valid(text, n):
            return
        kw = {"net": text}
        if rng.random() < 0.3:
            kw["agents"] = rows
    elif what == "agents":
        text, kind = break_agents(rng, rows, model)
        kw = {"agents": text}
        if rng.random() < 0.3:
            kw["net"] = net
    elif what == "config":
        c, want = C.random_config(rng, 0.3)
        from .c30 import bad
        if rng.random() < 0.5:
            c, kind = bad(rng, c, want)
            text = toml(c)
        else:
            text = toml(cfg)
            kind, text = rng.choice([("unclosed", text.replace("]", "", 1)), ("value", text + "x = \n"), ("twice", text + "[model]\nmax_iterations = 1\n"),
                                     ("garbage", "\x00\xff{" + text), ("empty", ""), ("number", text + "y = 1.2.3\n")])
        kw = {"cfgtext": text}
        if rng.random() < 0.4:  # good files do not make the configuration better
            kw["net"] = net
        if rng.random() < 0.4:
            kw["agents"] = rows
    else:
        kind = what
        d = ck.scratch()
        open(os.path.join(d, "c.toml"), "w").write(toml(cfg))
        args = {"missing-network": ["c.toml", "-o", "out", "-n", "none.txt"], "missing-agents": ["c.toml", "-o", "out", "-a", "none.txt"],
                "missing-config": ["none.toml", "-o", "out"], "no-arguments": ["-o", "out"], "unknown-option": ["c.toml", "-o", "out", "--what"]}[what]
        r = vlib.run([exe] + args, cwd=d)
        files = [f for f in (os.listdir(os.path.join(d, "out")) if os.path.isdir(os.path.join(d, "out")) else []) if f.startswith(("op", "net"))]
        judge(ck, what, kind, model, r, files, {"config": toml(cfg), "args": args})
        return
    s = Sim(ck, exe, cfg, **kw)
    rep = s.replay()
    if "cfgtext" in kw:
        rep["config"] = kw["cfgtext"]
    judge(ck, what, kind, model, s.r, written(s), rep)
    if idx < 4:
        ck.sample({"what": what, "kind": kind, "model": model})
    s.clean()


def judge(ck, what, kind, model, r, files, rep):
    k = r.kind()
    ck.count("must_reject_" + what)
    ck.evaluated((what, kind, model, repr(rep)))
    if k == "ok":
        ck.fail("accepted-%s-%s" % (what, kind), "%s: malformed %s (%s) is accepted" % (model, what, kind), rep)
    elif k != "reject":
        rep["stderr"] = r.err[-3000:]
        ck.fail("%s-%s" % (k, what), "%s: malformed %s (%s) leads to %s: %s" % (model, what, kind, k, r.what()), rep)
    elif files:
        ck.fail("output-%s-%s" % (what, kind), "%s: malformed %s (%s) is refused after %s" % (model, what, kind, files[:4]), rep)


CHARS = b"0123456789,.-+eE# \n\n,,\r\tnainf\x00\xffx"


def mutate(rng, data):
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        op = rng.random()
        i = rng.randrange(len(b) + 1)
        if op < 0.3 and b:
            b[min(i, len(b) - 1)] = rng.choice(CHARS)
        elif op < 0.5:
            b[i:i] = bytes([rng.choice(CHARS)])
        elif op < 0.65:
            del b[i:i + rng.choice([1, 1, 2, 10])]
        elif op < 0.75:
            del b[i:]
        elif op < 0.85:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.randint(1, 30)]
        else:
            b[i:i] = rng.choice([b"-1", b"4294967296", b"2147483648", b"1e999", b"-0", b"\n\n", b"99999", b"1e-320", b"nan", b"inf", b",,,,", b"0x1p3"])
    return bytes(b)


def fuzz(ck, exe, rng, idx):
    model = rng.choice(MODELS)
    n = rng.choice([1, 2, 3, 5])
    cfg, dim = base(rng, model, n)
    net = net_text(rand_network(rng, n)).encode()
    ag = agent_text(rand_agents(rng, model, n, dim=dim)).encode()
    which = rng.random()
    if which < 0.55:
        net = mutate(rng, net)
    if which > 0.45:
        ag = mutate(rng, ag)
    s = Sim(ck, exe, cfg, net=net if which < 0.8 else None, agents=ag if which > 0.3 else None, timeout=30)
    k = s.r.kind()
    ck.count("fuzz_" + k)
    ck.evaluated((net, ag, model))
    if k not in ("ok", "reject"):
        rep = s.replay()
        rep["stderr"] = s.r.err[-3000:]
        rep["net_bytes"], rep["agent_bytes"] = repr(net)[:3000], repr(ag)[:3000]
        ck.fail("fuzz-" + k, "%s with mutated files: %s: %s" % (model, k, s.r.what()), rep)
    s.clean()


def fuzz_config(ck, exe, seed):
    rng = random.Random(seed)
    texts = []
    for _ in range(300):
        c, want = C.random_config(rng)
        if rng.random() < 0.4:
            # values of other types
            s = rng.choice([x for x in c if c[x]])
            k = rng.choice(list(c[s]))
            c[s][k] = rng.choice([True, "text", [], [1, 2], [[1], ["a"]], 2**63 - 1, -2**63, 1e308, float("nan"), [1.5, "x", True]])
        t = C.render(rng, c).encode()
        texts.append(t if rng.random() < 0.3 else mutate(rng, t))
    while texts:
        out, r, done = C.parse(exe, ck, texts)
        i = len(texts) if done else next((i for i, o in enumerate(out) if o is None), 0)
        for o in out[:i]:
            ck.count("config_" + ("accepted" if o[0] == "CFG" else "refused"))
            ck.evaluated()
        if not done:
            if "toml++" in r.err and "Assertion" in r.err and "Sanitizer" not in r.err:
                ck.count("config_refused_by_an_assertion_of_the_toml_library")
                i += 1
            else:
                ck.run_failed(r, "reading a mutated configuration", {"text": repr(texts[i:i + 1])})
                return
        texts = texts[i:]


def main():
    ck = Check("C02", "files with one definite error (wrong index, count, number of columns or agents, text for a number, missing file, "
                      "invalid configuration) have to be refused by an error exit without simulation output; byte mutations of "
                      "network, agent and configuration files may be accepted or refused, under AddressSanitizer and "
                      "UndefinedBehaviorSanitizer. Distinct by content",
               ["an uncaught exception is a refusal, as is a failed assertion inside the TOML library", "lines after an empty line are not judged"])
    b = build("seldon:asan", "h_cfg:asan")
    exe = b["seldon:asan"]
    k = 5 if THOROUGH else 1
    for f, N in ((must_reject, 1500 * k), (fuzz, 2500 * k)):
        seeds = [ck.rng.getrandbits(60) for _ in range(N)]
        pmap(lambda t: f(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    pmap(lambda s: fuzz_config(ck, b["h_cfg:asan"], s), [ck.rng.getrandbits(60) for _ in range(16 * k)])
    for w in ("network", "agents", "config", "lattice"):
        ck.require(ck.violations or ck.counters.get("must_reject_" + w, 0) > (30 if w == "lattice" else 100), w)
    ck.require(ck.violations or ck.counters.get("fuzz_reject", 0) > 100 and ck.counters.get("fuzz_ok", 0) > 100, "both outcomes of mutated files")
    return ck.finish()
