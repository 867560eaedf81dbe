"""Running the in-process monitors (harness/h_net, h_math, h_cfg) and taking over what they report."""
import vlib


def run_monitor(ck, exe, args, timeout=300, wrapper=(), count_into=None, cwd=None, env=None):
    """-> dict of the STAT lines, or None if the run did not end properly (then it is a violation of the property)."""
    r = vlib.run(list(wrapper) + [exe] + [str(a) for a in args], timeout=timeout, cwd=cwd, env=env)
    stats, keys, done = {}, 0, False
    for line in r.out.splitlines():
        t = line.split(" ", 2)
        if t[0] == "FAIL":
            ck.fail(t[1], t[2] if len(t) > 2 else "", {"args": [str(a) for a in args]})
        elif t[0] == "STAT":
            stats[t[1]] = int(t[2])
        elif t[0] == "KEYS":
            keys = int(t[1])
        elif t[0] == "CASE":
            ck.sample(line[5:])
        elif t[0] == "DONE":
            done = True
    if not done or r.rc != 0:
        ck.run_failed(r, "monitor " + " ".join(str(a) for a in args))
        return None
    for k, v in stats.items():
        ck.count(k, v)
    n = stats.get(count_into, 0) if count_into else 0
    with ck._lock:
        ck.evaluations += n
        for i in range(keys):
            ck.nontrivial.add((str(args), i))
    return stats


def spread(ck, exe, mode, total, count_into, extra=(), timeout=300, parts=8, pre=()):
    """Run `mode SEED COUNT` in `parts` processes with different seeds."""
    jobs = [ck.rng.getrandbits(40) for _ in range(parts)]
    return vlib.pmap(lambda s: run_monitor(ck, exe, [mode] + list(pre) + [s, max(1, total // parts)] + list(extra), timeout,
                                           count_into=count_into), jobs)
