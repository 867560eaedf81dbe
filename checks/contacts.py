"""Statistics of the contacts: expected probabilities by enumeration, exact binomial tests."""
import itertools
import json
import math
import os

from scipy.stats import binom
import vlib
from .common import *

P_MIN = 1e-12  # a single test with a smaller tail probability is a violation


def weights(x, i, h):
    return [0.0 if j == i else max(1e-10, abs(x[i] - x[j])) ** (-h) for j in range(len(x))]


def inclusion(w, m):
    """inclusion probabilities of successive sampling without replacement of m items with weights w; also pairs"""
    n = len(w)
    pos = [j for j in range(n) if w[j] > 0]
    m = min(m, len(pos))
    inc = [0.0] * n
    if m == 0:
        return inc
    if m == len(pos) or max(w) == min(w[j] for j in pos):
        return [m / len(pos) if w[j] > 0 else 0.0 for j in range(n)]
    if m == 1:
        t = math.fsum(w)
        return [x / t for x in w]

    def rec(chosen, rest, p):
        if len(chosen) == m:
            for j in chosen:
                inc[j] += p
            return
        tot = sum(w[j] for j in rest)
        for j in rest:
            rec(chosen + [j], [k for k in rest if k != j], p * w[j] / tot)

    rec([], pos, 1.0)
    return inc


def rows(w, m, a):
    """distribution of the set of agents that one agent contacts: {frozenset: probability}"""
    pos = [j for j in range(len(w)) if w[j] > 0]
    m = min(m, len(pos))
    out = {}

    def rec(chosen, rest, p):
        if len(chosen) == m:
            s = frozenset(chosen)
            out[s] = out.get(s, 0.0) + p
            return
        tot = sum(w[j] for j in rest)
        for j in rest:
            rec(chosen + [j], [k for k in rest if k != j], p * w[j] / tot)

    rec([], pos, a)
    out[frozenset()] = out.get(frozenset(), 0.0) + 1 - a
    return out


def joint_probability(row, r, e, f):
    """probability that the edges e and f (on different pairs of agents) are both present"""
    (i, j), (k, l) = e, f
    want = {}
    for x, y in (e, (j, i), f, (l, k)):
        want.setdefault(x, set()).add(y)
    agents = sorted(want)
    marg = []
    for x in agents:
        m = {}
        for s, p in row[x].items():
            q = frozenset(s & want[x])
            m[q] = m.get(q, 0.0) + p
        marg.append(list(m.items()))
    tot = 0.0
    for combo in itertools.product(*marg):
        c = {x: s for x, (s, _) in zip(agents, combo)}
        p = 1.0
        for _, q in combo:
            p *= q
        for x, y in (e, f):
            p *= 1.0 if y in c[x] else (r if x in c[y] else 0.0)
        tot += p
    return tot


def btest(k, N, p):
    """two-sided tail probability"""
    p = min(1.0, max(0.0, p))
    if p < 1e-13:
        return 1.0 if k == 0 else (0.0 if k > 3 else 1.0)
    if p > 1 - 1e-13:
        return 1.0 if k == N else (0.0 if k < N - 3 else 1.0)
    return min(1.0, 2 * min(binom.cdf(k, N, p), binom.sf(k - 1, N, p)))


def experiment(ck, exe, model, rng, n, p, agents, T, label):
    d = ck.scratch()
    cfg = config(model, seed=rng.randint(0, 10**6), max_iterations=T, n=n, c=max(0, min(2, n - 1)), io={}, **p)
    open(os.path.join(d, "c.toml"), "w").write(vlib.toml(cfg))
    arg = "-"
    if agents is not None:
        vlib.write_agents(os.path.join(d, "a.txt"), agents)
        arg = "a.txt"
    r = vlib.run([exe, "contacts", "c.toml", arg, str(T)], cwd=d, timeout=120)
    rep = {"config": vlib.toml(cfg), "agents": agents, "iterations": T}
    if r.kind() != "ok":
        ck.run_failed(r, label, rep)
        return None
    res = json.loads(r.out.split("RESULT ", 1)[1])
    x = [a[0] for a in res["agents"]]
    act = [a[1] for a in res["agents"]]
    nb = p.get("n_bots", 0)
    mm = [p["bot_m"][i] if i < nb else p["m"] for i in range(n)]
    hh = [p["bot_homophily"][i] if i < nb else p["homophily"] for i in range(n)]
    rr = p["reciprocity"]
    inc = [inclusion(weights(x, i, hh[i]), mm[i]) for i in range(n)]
    pr = [[min(1.0, act[i]) * inc[i][j] for j in range(n)] for i in range(n)]
    bad = []
    for i in range(n):
        if rr == 0:
            on = T - res["outdeg"][i][0]
            pon = min(1.0, act[i]) if min(mm[i], n - 1) > 0 else 0.0
            bad.append(("activity", btest(on, T, pon), "agent %d with activity %.4g active in %d of %d iterations" % (i, act[i], on, T)))
            bad.append(("memory", btest(res["both"][i], T - 1, pon * pon) if pon in (0.0, 1.0) else
                        btest_pairs(res["both"][i], T, pon), "agent %d with activity %.4g active in two consecutive iterations %d times of %d" % (i, act[i], res["both"][i], T)))
            if sum(res["outdeg"][i][k] for k in range(n + 2) if k not in (0, min(mm[i], n - 1))):
                bad.append(("count", 0.0, "agent %d with m=%d: out-degrees %r" % (i, mm[i], res["outdeg"][i])))
        for j in range(n):
            if i == j:
                continue
            pe = pr[i][j] + (1 - pr[i][j]) * pr[j][i] * rr
            k = res["edge"][i][j]
            bad.append(("edge", btest(k, T, pe), "edge %d -> %d in %d of %d iterations, expected %.1f (opinions %.4g %.4g)"
                        % (i, j, k, T, T * pe, x[i], x[j])))
            ck.count("edges_counted", k)
            if j > i:
                pm = pr[i][j] * pr[j][i] + rr * (pr[i][j] * (1 - pr[j][i]) + pr[j][i] * (1 - pr[i][j]))
                k = res["mutual"][i][j]
                bad.append(("mutual", btest(k, T, pm), "mutual edge %d - %d in %d of %d iterations, expected %.1f" % (i, j, k, T, T * pm)))
    total = 2 * [0.0]
    for i in range(n):
        for j in range(n):
            if i != j:
                total[0] += pr[i][j] + (1 - pr[i][j]) * pr[j][i] * rr
                total[1] += pr[i][j] * pr[j][i] + rr * (pr[i][j] * (1 - pr[j][i]) + pr[j][i] * (1 - pr[i][j]))
    for k, name in ((0, "edges"), (1, "mutual edges")):
        sm, sq = res["total"][2 * k:2 * k + 2]
        var = sq / T - (sm / T) ** 2  # of the number in one iteration; iterations are independent
        if var > 1e-9 and min(sm, T * total[k]) > 500:
            z = abs(sm - T * total[k]) / math.sqrt(T * var)
            bad.append(("total", math.erfc(z / math.sqrt(2)), "%d %s in %d iterations, expected %.1f" % (sm, name, T, T * total[k])))
    if n > 6:
        return finish(ck, bad, label, rep, T, res)
    row = [rows(weights(x, i, hh[i]), mm[i], min(1.0, act[i])) for i in range(n)]
    edges = [(i, j) for i in range(n) for j in range(n) if i != j]
    pe = {(i, j): pr[i][j] + (1 - pr[i][j]) * pr[j][i] * rr for i, j in edges}
    for e in edges:
        for f in edges:
            a, b = e[0] * n + e[1], f[0] * n + f[1]
            if e != f and e != f[::-1]:
                pj = joint_probability(row, rr, e, f)
                if e < f:
                    k = res["joint"][a][b]
                    bad.append(("joint", btest(k, T, pj), "edges %d -> %d and %d -> %d together in %d of %d iterations, expected %.1f"
                                % (e + f + (k, T, T * pj))))
            elif e == f:
                pj = pe[e]
            else:
                pj = None
            if pj is not None:
                k = res["lag"][a][b]
                bad.append(("lag", lag_test(k, T - 1, pe[e], pe[f], pj), "edge %d -> %d and in the next iteration %d -> %d: %d of %d "
                            "times, expected %.1f" % (e + f + (k, T - 1, (T - 1) * pe[e] * pe[f]))))
    return finish(ck, bad, label, rep, T, res)


def finish(ck, bad, label, rep, T, res):
    ck.count("binomial_tests", len(bad))
    for what, pv, desc in bad:
        if pv < P_MIN:
            ck.fail(what, "%s: %s (p=%.2g)" % (label, desc, pv), rep)
    ck.count("iterations_observed", T)
    return res


def btest_pairs(k, T, p):
    """number of t with success at t and t-1 for independent trials: normal approximation, variance including overlaps"""
    import math
    N = T - 1
    mean = N * p * p
    var = N * p * p * (1 - p * p) + 2 * (N - 1) * (p ** 3 - p ** 4)
    if var < 25:
        return 1.0
    z = abs(k - mean) / math.sqrt(var)
    return math.erfc(z / math.sqrt(2))


def lag_test(k, N, p, q, pq):
    """number of t with E at t-1 and F at t, independent iterations, P(E)=p, P(F)=q, P(E and F)=pq"""
    import math
    mean = p * q
    var = N * mean * (1 - mean) + 2 * (N - 1) * (p * q * pq - mean * mean)
    if var < 400:
        return 1.0
    return math.erfc(abs(k - N * mean) / math.sqrt(var) / math.sqrt(2))
