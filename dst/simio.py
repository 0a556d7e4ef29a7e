"""Simulated files and streams.

A SimRaw is the raw layer the standard library's own buffering and text layers
are stacked on.  It reads and writes short, is interrupted, fails with EIO, runs
out of space or finds a broken pipe, where its Plan says so.
"""

from __future__ import annotations

import errno
import io
import os
from typing import Any
from typing import Dict
from typing import List
from typing import Optional

from .core import Choices
from .core import Ctx


class Plan:
    """What happens to the operations on one file."""

    def __init__(self, ch: Choices, ctx: Ctx) -> None:
        self.ch, self.ctx = ch, ctx
        self.short = 0  # of 8
        self.eintr = 0  # of 8
        self.read_error_at: Optional[int] = None  # byte offset
        self.truncate_at: Optional[int] = None  # byte offset
        self.write_error_at: Optional[int] = None  # byte offset
        self.write_errno = errno.EIO
        self.close_errno = 0
        self.open_errno = 0
        self.fired: List[str] = []  # faults that may change the outcome
        self.seekable = True

    def harmless(self) -> None:
        """Draw faults that must not be noticed."""
        if self.ch.chance(1, 2, "short transfers"):
            self.short = self.ch.pick((2, 6, 8), "how short")
        if self.ch.chance(1, 4, "EINTR"):
            self.eintr = self.ch.pick((1, 4), "how often")
        self.seekable = not self.ch.chance(1, 3, "pipe")

    def fire(self, name: str) -> None:
        self.fired.append(name)
        self.ctx.fault(name)
        self.ctx.log("io", name)
        self.ctx.sched("io", name)

    def size(self, n: int) -> int:
        if self.short and n > 1 and self.ch.draw(8, "short") < self.short:
            self.ctx.fault("short transfer")
            n = self.ch.between(1, min(n, 64), "size")
        self.ctx.sched("transfer", n)
        return n

    def maybe_eintr(self) -> None:
        if self.eintr and self.ch.draw(8, "eintr") < self.eintr:
            self.ctx.fault("EINTR")
            self.ctx.sched("EINTR")
            raise InterruptedError(errno.EINTR, "Interrupted system call")


class SimRaw(io.RawIOBase):
    def __init__(
        self, data: bytearray, plan: Plan, *, read: bool = False, write: bool = False,
        name: str = "",
    ) -> None:
        super().__init__()
        self.data = data
        self.plan = plan
        self._read, self._write = read, write
        self.pos = 0
        self.eintrs = 0
        self.name = name
        self.mode = "rb" if read else "wb"

    def readable(self) -> bool:
        return self._read

    def writable(self) -> bool:
        return self._write

    def seekable(self) -> bool:
        return self.plan.seekable

    def isatty(self) -> bool:
        return False

    def fileno(self) -> int:
        raise io.UnsupportedOperation("fileno")

    def _eintr(self) -> None:
        # Never for ever.
        if self.eintrs < 20:
            try:
                self.plan.maybe_eintr()
            except InterruptedError:
                self.eintrs += 1
                raise

    def readinto(self, b: Any) -> int:
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self._eintr()
        plan = self.plan
        end = len(self.data)
        if plan.truncate_at is not None and plan.truncate_at < end:
            end = plan.truncate_at
            if self.pos + len(b) > end and "file truncated" not in plan.fired:
                plan.fire("file truncated")
        n = max(0, min(len(b), end - self.pos))
        if n:
            n = plan.size(n)
        if plan.read_error_at is not None and self.pos + n >= plan.read_error_at:
            if self.pos >= plan.read_error_at or not n:
                plan.fire("read error")
                raise OSError(errno.EIO, os.strerror(errno.EIO))
            n = plan.read_error_at - self.pos
        b[:n] = self.data[self.pos : self.pos + n]
        self.pos += n
        return n

    def write(self, b: Any) -> int:
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self._eintr()
        plan = self.plan
        raw = bytes(b)
        n = plan.size(len(raw))
        if plan.write_error_at is not None and self.pos + n > plan.write_error_at:
            n = plan.write_error_at - self.pos
            if n <= 0:
                plan.fire(
                    {errno.ENOSPC: "disk full", errno.EPIPE: "broken pipe"}.get(
                        plan.write_errno, "write error"
                    )
                )
                raise OSError(plan.write_errno, os.strerror(plan.write_errno))
        self.data[self.pos : self.pos + n] = raw[:n]
        self.pos += n
        return n

    def seek(self, offset: int, whence: int = 0) -> int:
        if not self.plan.seekable:
            raise io.UnsupportedOperation("seek")
        base = {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        self.pos = max(0, base + offset)
        return self.pos

    def tell(self) -> int:
        if not self.plan.seekable:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def truncate(self, size: Optional[int] = None) -> int:
        size = self.pos if size is None else size
        del self.data[size:]
        return size

    def close(self) -> None:
        if self.closed:
            return
        super().close()
        if self.plan.close_errno and self._write:
            self.plan.fire("close error")
            raise OSError(self.plan.close_errno, os.strerror(self.plan.close_errno))


class Wrapper:
    """A readable file that is not an IOBase, as those of `tempfile`."""

    def __init__(self, file: Any) -> None:
        self.file = file
        self.name = "wrapper"

    def __getattr__(self, name: str) -> Any:
        return getattr(self.__dict__["file"], name)

    def read(self, *args: Any) -> Any:
        return self.file.read(*args)

    def __iter__(self) -> Any:
        return iter(self.file)

    def __enter__(self) -> Any:
        self.file.__enter__()
        return self

    def __exit__(self, *args: Any) -> Any:
        return self.file.__exit__(*args)


KINDS = ("text file", "binary file", "StringIO", "BytesIO", "raw file", "wrapper",
         "utf-16 file", "spooled file")


def readable(kind: str, text: str, plan: Plan, buffer_size: int = 8192) -> Any:
    """A readable file holding `text`."""
    data = bytearray(text.encode("utf-16" if kind == "utf-16 file" else "utf-8"))
    if kind == "StringIO":
        return io.StringIO(text)
    if kind == "BytesIO":
        return io.BytesIO(bytes(data))
    if kind == "spooled file":
        import tempfile

        f = tempfile.SpooledTemporaryFile(max_size=1 << 24, mode="w+", encoding="utf-8")
        f.write(text)
        f.seek(0)
        return f
    raw = SimRaw(data, plan, read=True, name=kind)
    if kind == "raw file":
        return raw
    buffered = io.BufferedReader(raw, buffer_size)
    if kind in ("binary file", "utf-16 file"):
        return buffered
    f = io.TextIOWrapper(buffered, encoding="utf-8")
    return Wrapper(f) if kind == "wrapper" else f


class Disk:
    """Files by absolute path, and the streams opened on them."""

    ROOT = "/sim/"

    def __init__(self, ch: Choices, ctx: Ctx) -> None:
        self.ch, self.ctx = ch, ctx
        self.files: Dict[str, bytearray] = {}
        self.plans: Dict[str, Plan] = {}
        self.opened: List[Any] = []
        self.real_open = io.open

    def put(self, name: str, data: bytes) -> str:
        path = self.ROOT + name
        self.files[path] = bytearray(data)
        return path

    def plan(self, path: str) -> Plan:
        if path not in self.plans:
            self.plans[path] = Plan(self.ch, self.ctx)
        return self.plans[path]

    def open(
        self, file: Any, mode: str = "r", buffering: int = -1, encoding: Any = None,
        errors: Any = None, newline: Any = None, closefd: bool = True, opener: Any = None,
    ) -> Any:
        try:
            name = os.fspath(file)
        except TypeError:
            name = file
        if not isinstance(name, str) or not name.startswith(self.ROOT):
            if any(c in mode for c in "wax+"):
                raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), file)
            return self.real_open(
                file, mode, buffering, encoding, errors, newline, closefd, opener
            )
        plan = self.plan(name)
        if plan.open_errno:
            plan.fire("open error")
            raise OSError(plan.open_errno, os.strerror(plan.open_errno), name)
        reading = "r" in mode
        if reading and name not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        if "x" in mode and name in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), name)
        data = self.files.setdefault(name, bytearray())
        if "w" in mode:
            del data[:]
        plus = "+" in mode
        raw = SimRaw(data, plan, read=reading or plus, write=not reading or plus, name=name)
        if "a" in mode:
            raw.pos = len(data)
        if buffering == 0:
            return raw
        if plus:
            buf: Any = io.BufferedRandom(raw)
        elif reading:
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if "b" in mode:
            self.opened.append(buf)
            return buf
        text = io.TextIOWrapper(
            buf, encoding=encoding or "utf-8", errors=errors, newline=newline
        )
        text.mode = mode
        self.opened.append(text)
        return text

    def exit(self) -> None:
        """What happens to open files when the process ends."""
        for f in self.opened:
            try:
                f.close()
            except Exception:  # noqa: BLE001
                pass
