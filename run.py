#!/usr/bin/env python3
"""Check one property: run.py C08 [--tier quick|thorough] [--runs N] [--workers N]."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot  # noqa: E402

boot.reexec()
boot.load()

from dst import runner  # noqa: E402


def main() -> int:
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--runs", type=int)
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    p.add_argument("--digests", help="write one line per run to this file")
    p.add_argument("--first", action="store_true", help="neither shrink nor replay")
    a = p.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.digests:
        b = runner.Batch(
            a.property, tier, a.seed, a.runs or 100, a.workers, a.start, True
        )
        t = b.explore()
        with open(a.digests, "w") as fd:
            for i in sorted(b.logs):
                fd.write(f"{i} {b.logs[i]}\n")
        for e in t.errors:
            print(e[0], e[2], file=sys.stderr)
        return 2 if t.errors else 0
    return runner.check(a.property, tier, a.seed, a.workers, a.runs, a.first)


if __name__ == "__main__":
    sys.exit(main())
