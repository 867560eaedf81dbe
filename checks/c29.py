"""C29: the settings of a run are the ones in the configuration file, and the documented defaults where it says nothing."""
import random

from vlib import Check, build, pmap, THOROUGH
from . import cfg as C


def eq(a, b):
    if isinstance(b, tuple):
        return isinstance(a, list) and len(a) == b[1]
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(b, bool) or isinstance(a, bool):
        return a is b
    if b is None or a is None:
        return a is b
    if isinstance(b, str) or isinstance(a, str):
        return a == b
    return float(a) == float(b)


def main():
    ck = Check("C29", "random configurations: every setting present or absent, values over its valid range including both ends, "
                      "integers for reals, keys and sections in random order, sections of other models, unknown keys, bot lists "
                      "of any sufficient length; the parsed settings are compared one by one with the intended ones. "
                      "Distinct by text", ["the default of bot_activity (documented contradictorily) is judged by its length only"])
    exe = build("h_cfg:asan")["h_cfg:asan"]
    N = 40000 if THOROUGH else 4000
    B = 250

    def batch(seed):
        rng = random.Random(seed)
        cases = [C.random_config(rng) for _ in range(B)]
        texts = [C.render(rng, c) for c, _ in cases]
        out, r, done = C.parse(exe, ck, texts)
        if not done:
            bad = next((i for i, o in enumerate(out) if o is None), 0)
            return ck.run_failed(r, "parsing", {"text": texts[bad]})
        for (c, want), text, o in zip(cases, texts, out):
            ck.evaluated(text)
            if o[0] != "CFG":
                ck.fail("rejected", "valid configuration rejected (%s: %s)" % (o[1], o[2]), {"text": text})
                continue
            if isinstance(want.get("bot_activity"), tuple):
                constant(o[1].get("bot_activity") or [], text)
            for k, v in want.items():
                ck.count("settings_compared")
                if k not in o[1] or not eq(o[1][k], v):
                    given = any(k in s for s in (c["simulation"], c["io"], c["model"], c["network"], c[want["model"]])) \
                        or (k == "seed" and "rng_seed" in c["simulation"])
                    ck.fail("%s-%s" % (k, "value" if given else "default"),
                            "%s: %s is %r instead of %r" % (want["model"], k, o[1].get(k), v), {"text": text})
        ck.sample({"text": texts[0][:400]})
    defaults = {}

    def constant(got, text):
        """whatever the default of bot_activity is, it is one number"""
        for x in got:
            if defaults.setdefault("bot_activity", x) != x:
                ck.fail("bot_activity-default", "the default of bot_activity is %r here and %r there" % (x, defaults["bot_activity"]), {"text": text})
    pmap(batch, [ck.rng.getrandbits(60) for _ in range(N // B)])
    ck.require(ck.violations or ck.counters.get("settings_compared", 0) > 50000, "settings")
    return ck.finish()
