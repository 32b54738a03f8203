#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current sources."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.setrecursionlimit(20000)
import load          # noqa: E402
import core          # noqa: E402
from registry import CHECKS  # noqa: E402


def main():
    pid = sys.argv[1]
    mod, fn, rule, needs_program = CHECKS[pid][:4]
    rep = core.Report(pid, rule)
    try:
        m = importlib.import_module(mod)
        p = load.program() if needs_program else None
        getattr(m, fn)(p, rep)
        return rep.finish()
    except (core.Broken, load.AnalysisError) as e:
        print("analysis broken: %s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
