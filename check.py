#!/opt/venv/bin/python
"""check.py --selftest | ID [--tier quick|thorough] [--seed N] [--jobs N] [--replay FILE] [--only SUBTEST]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--opt-slice")
    ap.add_argument("--only", default=os.environ.get("VERIF_ONLY"))
    a = ap.parse_args()
    if a.selftest:
        from lib import selftest
        return selftest.main()
    if a.opt_slice:
        return core.opt_slice(a.opt_slice)
    if a.worker:
        tier, seed, i, n, out = a.worker.split(",", 4)
        core.worker(a.pid, tier, int(seed), int(i), int(n), out, a.only)
        return 0
    if a.replay:
        return core.replay(a.replay)
    if a.only:
        os.environ["VERIF_ONLY"] = a.only
    return core.main(a.pid, a.tier, a.seed, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
