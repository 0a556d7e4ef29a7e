#!/usr/bin/env python3
"""Replay a file written by run.py.

Exit 1 when the recorded violation happens again with the same event log, 0 when
the run finds nothing, 3 when something else happens.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import boot  # noqa: E402

boot.reexec()
boot.load()

import importlib  # noqa: E402

from dst import runner  # noqa: E402


def main() -> int:
    args = [a for a in sys.argv[1:] if a != "--quiet"]
    quiet = "--quiet" in sys.argv
    with open(args[0], encoding="utf-8") as fd:
        doc = json.load(fd)
    mod = importlib.import_module(f"dst.props.{doc['property'].lower()}")
    out = runner.full_run(
        mod,
        doc["tier"],
        choices=doc["choices"],
        keep_log=True,
        final=doc["violation"]["kind"] == "nontermination",
    )
    if not quiet:
        print(f"case: {out.get('case', '')}")
        for line in out.get("events", []):
            print("  " + line)
    if out["status"] == "ok":
        print("NOTHING FOUND: the recorded violation does not happen on this tree")
        return 0
    print(f"{out['status']}: {out['kind']}\n{out['detail']}")
    if out["status"] == "violation" and out["kind"] == doc["violation"]["kind"]:
        if out["log_sha"] == doc["log_sha256"]:
            print(f"REPRODUCED property={doc['property']} exactly")
            return 1
        print("same kind of violation, different event log")
        return 3
    return 3


if __name__ == "__main__":
    sys.exit(main())
