"""Compute something in a forked copy of the process, so that it leaves no trace."""

from __future__ import annotations

import os
import pickle
import sys
import traceback
from typing import Any
from typing import Callable
from typing import List

from . import boot
from .core import Violation


def library_frame(tb: Any) -> bool:
    """Whether an exception passed through the library."""
    root = os.path.realpath(boot.REPO) + os.sep + "jsonpath" + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def pristine(fn: Callable[[], Any]) -> Any:
    """Return what `fn` returns, computed in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn()), protocol=4)
            except Violation as err:
                data = pickle.dumps((False, (err.kind, err.detail)), protocol=4)
            except BaseException as err:  # noqa: BLE001
                text = "".join(traceback.format_exception(err))
                kind = ""
                if isinstance(err, Exception) and library_frame(err.__traceback__):
                    kind = f"library-raised-{type(err).__name__}"
                    text = "the library raised where a result was due:\n" + text[-3000:]
                data = pickle.dumps((False, (kind, text)), protocol=4)
            view = memoryview(data)
            while view:
                n = os.write(w, view)
                view = view[n:]
        finally:
            os._exit(0)
    os.close(w)
    chunks: List[bytes] = []
    while True:
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    os.waitpid(pid, 0)
    ok, value = pickle.loads(b"".join(chunks))
    if not ok and value[0]:
        raise Violation(*value)
    if not ok:
        raise AssertionError("in a pristine child:\n" + value[1])
    sys.stdout.flush()
    return value


def drive(coro: Any) -> Any:
    """Run a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration as stop:
        return stop.value
    raise AssertionError("the coroutine suspended")
