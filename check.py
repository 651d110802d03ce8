#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--only substring]: decide one property from /repo's sources"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from gsa import props, run  # noqa: E402


def main(a):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    reg = props.load()
    p = reg[a[0]]
    scs = p.build(tier)
    if "--only" in a:
        s = a[a.index("--only") + 1]
        scs = [x for x in scs if s in x.name]
    return run.check(p.pid, scs, tier, p.level, p.explain, p.assumptions, p.min_resolved)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
