#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current tree.

Exit 0: holds on everything analysed. Exit 1: VIOLATION line. Exit 2: the
analysis is broken (unparsable source, vanished anchor)."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import core, report  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        mod = importlib.import_module("sa.rules." + pid.lower())
        prog = core.program()
        res = report.Result(pid, tier)
        mod.run(prog, res, tier)
        code = report.finish(res, prog, "other", mod.EXPLANATION, seed)
    except core.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        code = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        code = 2
    sys.exit(code)


if __name__ == "__main__":
    main()
