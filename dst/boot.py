"""Process set-up shared by run.py and replay.py.

Re-executes the interpreter once so that nothing outside the choices can decide
a run: fixed hash seed, no address space randomisation (best effort), no
byte-code written to /repo, the package taken from /repo's working tree.
"""

from __future__ import annotations

import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)  # where evidence/ and replays/ go


def _no_aslr() -> None:
    try:
        import ctypes

        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(ctypes.c_ulong(0x0040000))
    except Exception:  # noqa: BLE001
        pass


def reexec() -> None:
    if os.environ.get("DST_BOOTED") == "1":
        return
    _no_aslr()
    env = {
        k: v
        for k, v in os.environ.items()
        if k.startswith("VERIF_")
        or k in ("PATH", "HOME", "TMPDIR", "LC_ALL", "DST_HASHSEED")
    }
    env["DST_BOOTED"] = "1"
    env["PYTHONHASHSEED"] = env.get("DST_HASHSEED", "0")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    # Don't trust stale byte-code: look for it where there is none.
    env["PYTHONPYCACHEPREFIX"] = "/nonexistent-pycache"
    env["PYTHONUTF8"] = "1"
    env["PYTHONSAFEPATH"] = "1"
    sys.stdout.flush()
    sys.stderr.flush()
    os.execve(
        sys.executable,
        [sys.executable, "-W", "ignore", os.path.abspath(sys.argv[0])] + sys.argv[1:],
        env,
    )


def load() -> None:
    """Import the package under test from /repo, with our locks in place."""
    import gc

    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    from dst import threads

    threads.patch_locks()

    import importlib
    import pkgutil

    import jsonpath

    where = os.path.realpath(jsonpath.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"jsonpath was imported from {where}, not from {REPO}")
    for info in pkgutil.walk_packages(jsonpath.__path__, "jsonpath."):
        if info.name.endswith("__main__"):
            continue
        importlib.import_module(info.name)
    # Modules used lazily by the library or by the harness.
    import argparse  # noqa: F401
    import asyncio  # noqa: F401
    import concurrent.futures  # noqa: F401
    import copy  # noqa: F401
    import decimal  # noqa: F401
    import encodings.idna  # noqa: F401
    import encodings.latin_1  # noqa: F401
    import encodings.unicode_escape  # noqa: F401
    import encodings.utf_16  # noqa: F401
    import encodings.utf_32  # noqa: F401
    import gettext  # noqa: F401
    import json  # noqa: F401
    import locale  # noqa: F401
    import runpy  # noqa: F401
    import tempfile  # noqa: F401
    import traceback  # noqa: F401

    threads.library_code(package_root())
    gc.collect()
    gc.disable()


def package_root() -> str:
    """The folder of the package under test, as code objects name it."""
    import jsonpath

    return os.path.dirname(jsonpath.__file__) + os.sep
