"""A deterministic scheduler for real threads.

Every simulated thread is a real thread, but only one runs at a time: the others
are parked on private locks.  Control can change hands at each executed line
(or byte code instruction) of the library under test, observed with
sys.monitoring, and when a thread blocks on a lock created by that library.  Who
runs next, and for how many lines, is drawn from the run's choices.

Interrupts (an exception raised between two lines, as a signal handler would)
are injected from the same events.
"""

from __future__ import annotations

import os
import sys
import threading as _threading
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional

from .core import Choices
from .core import Ctx
from .core import RunTooLong
from .core import Violation

_real_lock = _threading.Lock
_real_rlock = _threading.RLock
_get_ident = _threading.get_ident

ACTIVE: Optional["ThreadSim"] = None
BUDGET: Optional[List[int]] = None  # executed lines left, when a watchdog fired

QUANTA = (0, 1, 2, 3, 5, 8, 13, 25, 60, 150, 1, 3, 6, 10, 18, 40)  # 0 is "until it finishes"
RACE_QUANTA = (0, 1, 2, 3, 1, 2, 5, 8, 1, 1, 2, 3, 1, 2, 4, 13)


class SimInterrupt(BaseException):
    """Injected between two lines of library code."""


class SimKilled(BaseException):
    """Unwinds parked threads at the end of a run."""


class SimLock:
    """threading.Lock and RLock for the code under test.

    Outside a simulation it behaves as the real one.  Inside, a thread that
    would block hands over to another.
    """

    def __init__(self, reentrant: bool = False) -> None:
        self._reentrant = reentrant
        self._owner: Any = None
        self._count = 0
        self._real = _real_rlock() if reentrant else _real_lock()

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        sim = ACTIVE
        me = sim.current() if sim is not None else None
        if me is None:
            return self._real.acquire(blocking, timeout)
        while self._count and not (self._reentrant and self._owner is me):
            if not blocking or timeout >= 0:
                return False
            sim.block(me, self)
        self._owner = me
        self._count += 1
        return True

    def release(self) -> None:
        sim = ACTIVE
        me = sim.current() if sim is not None else None
        if me is None:
            if self._count:
                self._count = 0
                self._owner = None
                return
            self._real.release()
            return
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            sim.unblock(self)

    def locked(self) -> bool:
        return bool(self._count)

    def __enter__(self) -> bool:
        return self.acquire()

    def __exit__(self, *args: Any) -> None:
        self.release()

    # Used by threading.Condition.
    def _is_owned(self) -> bool:
        sim = ACTIVE
        me = sim.current() if sim is not None else None
        if me is None:
            return True
        return self._owner is me

    def _at_fork_reinit(self) -> None:
        self.__init__(self._reentrant)  # type: ignore


class _LockFactory:
    def __init__(self, reentrant: bool) -> None:
        self.reentrant = reentrant

    def __call__(self) -> Any:
        # Only code from the package under test gets simulated locks.
        frame = sys._getframe(1)
        if frame.f_globals.get("__name__", "").split(".")[0] == "jsonpath":
            return SimLock(self.reentrant)
        return _real_rlock() if self.reentrant else _real_lock()


TOOL = 4
_CODE: Dict[str, List[Any]] = {}


def library_code(root: str) -> List[Any]:
    """Every code object of the package under test."""
    if root not in _CODE:
        import gc
        import types

        found: Dict[int, Any] = {}

        def add(code: Any) -> None:
            if id(code) in found or not code.co_filename.startswith(root):
                return
            found[id(code)] = code
            for const in code.co_consts:
                if isinstance(const, types.CodeType):
                    add(const)

        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType):
                add(obj.__code__)
        _CODE[root] = sorted(
            found.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname)
        )
    return _CODE[root]


def patch_locks() -> None:
    _threading.Lock = _LockFactory(False)  # type: ignore
    _threading.RLock = _LockFactory(True)  # type: ignore


class _Thread:
    def __init__(self, index: int, name: str, target: Callable[[], Any]) -> None:
        self.index = index
        self.name = name
        self.target = target
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.blocked_on: Any = None
        self.result: Any = None
        self.error: Optional[BaseException] = None
        self.interrupt_at: Optional[int] = None
        self.interrupted = False
        self.lines = 0
        self.real: Any = None
        self.killed = False


class ThreadSim:
    """Run several callables as interleaved threads."""

    def __init__(
        self,
        ch: Choices,
        ctx: Ctx,
        root: str,
        *,
        max_switches: int = 400,
        max_lines: int = 30_000_000,
        opcodes: bool = False,
        quanta: Any = QUANTA,
        focus: Optional[str] = None,
        race: bool = False,
    ) -> None:
        self.ch, self.ctx = ch, ctx
        self.root = root
        self.max_switches = max_switches
        self.max_lines = max_lines
        self.opcodes = opcodes
        self.quanta = quanta
        self.focus = focus
        # Hand over in one function after another, wherever a thread is in it.
        self.race = race
        self.target: Any = None
        self.threads: List[_Thread] = []
        self.by_ident: Dict[int, _Thread] = {}
        self.main_gate = _real_lock()
        self.main_gate.acquire()
        self.running: Optional[_Thread] = None
        self.quantum = 0
        self.switches = 0
        self.lines = 0
        self.failure: Optional[BaseException] = None
        self.killing = False

    # -- set-up

    def spawn(self, name: str, target: Callable[[], Any]) -> _Thread:
        t = _Thread(len(self.threads), name, target)
        self.threads.append(t)
        return t

    def current(self) -> Optional[_Thread]:
        return self.by_ident.get(_get_ident())

    # -- the scheduler

    def _runnable(self) -> List[_Thread]:
        return [t for t in self.threads if not t.done and t.blocked_on is None]

    def _choose(self, yielding: Optional[_Thread]) -> Optional[_Thread]:
        ready = self._runnable()
        if not ready:
            return None
        # Zero: keep the lowest runnable thread going, without preemption.
        if yielding is not None and yielding in ready and len(ready) > 1:
            ready.remove(yielding)
        nxt = ready[self.ch.draw(len(ready), "thread")]
        if self.switches >= self.max_switches:
            self.quantum = 0
        else:
            quanta = self.quanta if self.target is None else RACE_QUANTA
            self.quantum = quanta[self.ch.draw(len(quanta), "quantum")]
        return nxt

    def _hand_over(self, me: Optional[_Thread], nxt: _Thread, why: str) -> None:
        if nxt is not me:
            self.switches += 1
            self.ctx.switches += 1
            self.ctx.sched(nxt.index, nxt.lines, why)
        self.running = nxt
        if nxt is me:
            return
        nxt.gate.release()
        if me is not None and not me.done:
            me.gate.acquire()
            if self.killing:
                raise SimKilled

    def _preempt(self, me: _Thread) -> None:
        nxt = self._choose(me)
        assert nxt is not None
        self._hand_over(me, nxt, "preempt")

    def block(self, me: _Thread, lock: Any) -> None:
        me.blocked_on = lock
        self.ctx.probe("blocked on a lock")
        nxt = self._choose(None)
        if nxt is None:
            names = ", ".join(t.name for t in self.threads if not t.done)
            self._fail(Violation("deadlock", f"every thread is blocked: {names}"))
            raise SimKilled
        self._hand_over(me, nxt, "block")

    def unblock(self, lock: Any) -> None:
        for t in self.threads:
            if t.blocked_on is lock:
                t.blocked_on = None

    def _fail(self, err: BaseException) -> None:
        if self.failure is None:
            self.failure = err
        self.killing = True
        self.main_gate.release()

    # -- monitoring

    def _instrument(self) -> None:
        """Ask for an event before every line, or byte code, of the library.

        Done once, before threads are started: changing it while threads run is not
        safe in CPython 3.12.
        """
        mon = sys.monitoring
        event = mon.events.INSTRUCTION if self.opcodes else mon.events.LINE
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, event, self._event)
        for code in library_code(self.root):
            if self.focus is None or code.co_filename.endswith(self.focus):
                mon.set_local_events(TOOL, code, event)

    def _release(self) -> None:
        mon = sys.monitoring
        for code in library_code(self.root):
            mon.set_local_events(TOOL, code, 0)
        mon.free_tool_id(TOOL)

    def _event(self, code: Any, where: int) -> None:
        me = self.running
        if me is None or self.killing or me.done or self.by_ident.get(_get_ident()) is not me:
            return
        me.lines += 1
        self.lines += 1
        if BUDGET is not None:
            BUDGET[0] -= 1
            if BUDGET[0] < 0:
                raise RunTooLong("too many lines executed")
        if self.lines > self.max_lines:
            raise RunTooLong(
                f"more than {self.max_lines} lines executed by simulated threads, last "
                f"in {os.path.basename(code.co_filename)}:{code.co_name}"
            )
        if me.interrupt_at is not None and me.lines >= me.interrupt_at:
            me.interrupt_at = None
            me.interrupted = True
            self.ctx.fault("interrupt")
            self.ctx.log(
                f"[{me.name}] interrupted at "
                f"{os.path.basename(code.co_filename)}:{code.co_name}"
            )
            raise SimInterrupt
        if self.quantum and (self.target is None or code is self.target):
            self.quantum -= 1
            if not self.quantum:
                if self.race:
                    self.target = None if self.switches % 24 == 23 else code
                self._preempt(me)

    def arm_interrupt(self, after_lines: int) -> None:
        me = self.current()
        assert me is not None
        me.interrupt_at = me.lines + after_lines

    def disarm_interrupt(self) -> None:
        me = self.current()
        assert me is not None
        me.interrupt_at = None

    # -- running

    def _main(self, t: _Thread) -> None:
        t.gate.acquire()
        self.by_ident[_get_ident()] = t
        try:
            if self.killing:
                return
            t.result = t.target()
        except SimKilled:
            t.killed = True
        except BaseException as err:  # noqa: BLE001
            t.error = err
        finally:
            t.done = True
            self.by_ident.pop(_get_ident(), None)
            if not self.killing:
                if isinstance(t.error, (RunTooLong, Violation)):
                    self._fail(t.error)
                else:
                    nxt = self._choose(None)
                    if nxt is None:
                        left = [x for x in self.threads if not x.done]
                        if left:
                            self._fail(
                                Violation(
                                    "deadlock",
                                    "threads blocked for ever: "
                                    + ", ".join(x.name for x in left),
                                )
                            )
                        else:
                            self.main_gate.release()
                    else:
                        self._hand_over(t, nxt, "exit")

    def run(self) -> None:
        global ACTIVE
        if not self.threads:
            return
        ACTIVE = self
        _threading.stack_size(4 << 20)
        self._instrument()
        try:
            for t in self.threads:
                t.real = _threading.Thread(target=self._main, args=(t,), daemon=True)
                t.real.start()
            first = self._choose(None)
            assert first is not None
            self._hand_over(None, first, "start")
            self.main_gate.acquire()
        finally:
            ACTIVE = None
        if self.failure is not None:
            raise self.failure
        for t in self.threads:
            t.real.join()
        self._release()
        self.ctx.steps += self.lines
