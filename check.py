#!/usr/bin/env python3
"""python3 check.py <property id> | --setup | --all"""
import importlib
import os
import re
import sys
import traceback

VT = "/opt/veriftools/pyvenv/bin/python"
if os.path.exists(VT) and os.environ.get("SELDON_VT") != "1":
    os.environ["SELDON_VT"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.execv(VT, [VT] + sys.argv)

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402


def main(pid):
    try:
        mod = importlib.import_module("checks." + pid.lower())
        return mod.main()
    except vlib.HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        if vlib.CURRENT[0] is not None and vlib.CURRENT[0].violations:
            return vlib.CURRENT[0].finish()  # what was seen before the error stands
        return 2


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        try:
            vlib.build("seldon:asan", "h_sim:asan", "h_net:asan", "h_math:asan", "h_cfg:asan", "h_res:plain")
        except vlib.HarnessError as e:
            print(e)
            sys.exit(2)
        sys.exit(0)
    if sys.argv[1] == "--all":
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(vlib.VERIF, "checks")) if re.fullmatch(r"c\d\d\.py", f))
        bad = [p for p in ids if main(p) != 0]
        print("not quiet:", bad)
        sys.exit(1 if bad else 0)
    sys.exit(main(sys.argv[1].upper()))
