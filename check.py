#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the source in /repo (or $VERIF_REPO) by static analysis."""
import os, signal, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


class OutOfTime(BaseException):
    pass


def out_of_time(*_):
    raise OutOfTime()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    root = os.environ.get("VERIF_REPO", "/repo")
    from sa.report import Report, finish
    from checks import registry
    fn = registry.CHECKS[prop]
    rep = Report(prop, tier)
    signal.signal(signal.SIGALRM, out_of_time)
    signal.alarm(int(os.environ.get("VERIF_LIMIT", "700")))
    try:
        fn(rep, root, tier)
    except OutOfTime:
        rep.undecide("the analysis ran out of time; what it found until then is reported")
    except Exception:
        # the source cannot be followed (or the analyser has a bug): no verdict
        traceback.print_exc()
        rep.undecide("the analysis stopped: " + traceback.format_exc().strip().splitlines()[-1])
    signal.alarm(0)
    return finish(rep)


if __name__ == "__main__":
    sys.exit(main())
