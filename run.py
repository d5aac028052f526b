#!/usr/bin/env python3-vt
"""run.py MODULE [--tier quick|thorough]   |   run.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)

from irv import check  # noqa: E402


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return check.replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    return check.run_check(a[0], tier, only)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
