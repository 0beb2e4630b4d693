#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current tree.  check.py setup: build everything."""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    from wv import build, facts, report
    if sys.argv[1] == "setup":
        print(build.facts())
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    d = build.facts()
    rep = report.Report(pid, tier)
    P = facts.Program(d)
    mod = importlib.import_module("wv.rules." + pid.lower())
    from wv.interp import Overflow
    try:
        mod.run(P, rep)
    except Overflow as x:
        rep.bad("undecided", "overflow", "the analysis gave up (state budget): the property is not established (%s)" % x)
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
