"""C14: statistics of the contacts of the activity driven models."""
import random

from vlib import Check, build, pmap, THOROUGH
from .common import *
from . import contacts


def one(ck, exe, rng, idx):
    model = rng.choice(["ActivityDriven", "ActivityDriven", "ActivityDrivenInertial"])
    n = rng.choice([2, 3, 4, 5, 6])
    T = 40000 if THOROUGH else 20000
    if idx % 4 == 3:  # many agents: uniform choice, or one contact
        n = rng.choice([8, 12, 20, 40])
        T = 200000 // n
    p = {"dt": 1e-12, "m": rng.choice([1, 1, 2, 3, n - 1, n + 1]), "homophily": rng.choice([0.0, 0.5, 1.0, 2.0, -1.0, 3.0]),
         "reciprocity": rng.choice([0.0, 0.0, 1.0, 0.5, 0.2, 0.8]), "alpha": 1.0, "K": 1.0, "eps": 0.1, "gamma": 2.1}
    if n > 6:
        if rng.random() < 0.6:
            p.update(m=rng.choice([2, 3, n // 4, n // 2, n - 2, n - 1]), homophily=0.0)
        else:
            p["m"] = 1
    shape = rng.choice(["random", "one-active", "all-active", "equal-opinions", "file-less", "all-zero"])
    agents = None
    if shape != "file-less":
        agents = []
        spread = rng.choice([1.0, 1.0, 1.0, 10 ** rng.uniform(-4, 2)])
        centre = rng.choice([0.0, 0.0, rng.uniform(-2, 2)])
        for i in range(n):
            x = centre + spread * rng.uniform(-1, 1)
            a = rng.choice([0.1, 0.3, 0.7, 1.0, 0.0, rng.random()])
            if shape == "one-active":
                a = 1.0 if i == 0 else 0.0
            elif shape == "all-active":
                a = 1.0
            agents.append([x, a, 1.0] if model == "ActivityDriven" else [x, 0.0, a, 1.0])
        if shape == "all-zero":  # everybody agrees (and stays so): uniform choice
            for a in agents:
                a[0] = 0.0
                if rng.random() < 0.5:
                    a[2 if model == "ActivityDrivenInertial" else 1] = 1.0
            p["homophily"] = rng.choice([-2.0, -1.0, -0.5, 0.5, 2.0])
        if shape == "equal-opinions":
            agents[-1][0] = agents[0][0]
            p["homophily"] = rng.choice([0.1, 0.2])
            if n > 6:  # the probabilities are enumerated
                p["m"] = min(p["m"], 2)
    r = contacts.experiment(ck, exe, model, rng, n, p, agents, T, "%s %s n=%d m=%d homophily=%g reciprocity=%g"
                            % (model, shape, n, p["m"], p["homophily"], p["reciprocity"]))
    if r:
        ck.evaluated((model, n, p["m"], p["homophily"], p["reciprocity"], shape, repr(r["agents"])))
        if idx < 2:
            ck.sample({"params": p, "agents": r["agents"], "edge_counts": r["edge"]})


def main():
    ck = Check("C14", "random small populations (n<=6) x m x homophily x reciprocity; the contacts of 20000 (40000) iterations from the "
                      "same state are counted and compared with exact probabilities; distinct by parameters and agents",
               ["a test alarms if its binomial tail probability is below 1e-12", "probabilities by enumeration of weighted "
                "sampling without replacement; contacts of different agents are independent"])
    exe = build("h_sim:asan")["h_sim:asan"]
    N = 300 if THOROUGH else 90
    seeds = [ck.rng.getrandbits(60) for _ in range(N)]
    pmap(lambda t: one(ck, exe, random.Random(t[1]), t[0]), list(enumerate(seeds)))
    ck.require(ck.counters.get("edges_counted", 0) > 10**5, "edges")
    return ck.finish()
