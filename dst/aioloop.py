"""A deterministic asyncio event loop in virtual time.

No selector, no real clock, no threads.  Which ready callback runs next is drawn
from the run's choices; when nothing is ready the clock jumps to the next timer.
"""

from __future__ import annotations

import asyncio
import heapq
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Tuple

from .core import Choices
from .core import Ctx
from .core import RunTooLong
from .core import Violation


class SimLoop(asyncio.AbstractEventLoop):
    def __init__(self, ch: Choices, ctx: Ctx, *, max_steps: int = 2_000_000) -> None:
        self.ch, self.ctx = ch, ctx
        self._now = 0.0
        self._ready: List[asyncio.Handle] = []
        self._timers: List[Tuple[float, int, asyncio.TimerHandle]] = []
        self._seq = 0
        self._max_steps = max_steps
        self.steps = 0
        self._stopping = False
        self._running = False
        self.unhandled: List[Dict[str, Any]] = []
        self._asyncgens: Any = set()
        self.names: Dict[int, str] = {}
        self.random_order = True

    # -- time and callbacks

    def time(self) -> float:
        return self._now

    def call_soon(self, callback: Any, *args: Any, context: Any = None) -> Any:
        h = asyncio.Handle(callback, args, self, context)
        self._ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay: float, cb: Any, *args: Any, context: Any = None) -> Any:
        return self.call_at(self._now + max(0.0, delay), cb, *args, context=context)

    def call_at(self, when: float, cb: Any, *args: Any, context: Any = None) -> Any:
        h = asyncio.TimerHandle(when, cb, args, self, context)
        self._seq += 1
        heapq.heappush(self._timers, (when, self._seq, h))
        h._scheduled = True
        return h

    def _timer_handle_cancelled(self, handle: Any) -> None:
        pass

    # -- futures and tasks

    def create_future(self) -> Any:
        return asyncio.Future(loop=self)

    def create_task(
        self, coro: Any, *, name: Any = None, context: Any = None, **kw: Any
    ) -> Any:
        return asyncio.Task(coro, loop=self, name=name, context=context)

    def run_in_executor(self, executor: Any, func: Callable[..., Any], *args: Any) -> Any:
        # A worker thread that finishes at some later point of virtual time.
        fut = self.create_future()

        def work() -> None:
            if fut.done():
                return
            try:
                fut.set_result(func(*args))
            except BaseException as err:  # noqa: BLE001
                fut.set_exception(err)

        self.call_later(0.001 * self.ch.draw(4, "executor"), work)
        self.ctx.probe("run_in_executor")
        return fut

    # -- bookkeeping asyncio expects

    def get_debug(self) -> bool:
        return False

    def set_debug(self, enabled: bool) -> None:
        pass

    def is_running(self) -> bool:
        return self._running

    def is_closed(self) -> bool:
        return False

    def get_exception_handler(self) -> Any:
        return None

    def call_exception_handler(self, context: Dict[str, Any]) -> None:
        self.unhandled.append(context)

    default_exception_handler = call_exception_handler

    def get_task_factory(self) -> Any:
        return None

    def set_task_factory(self, factory: Any) -> None:
        pass

    async def shutdown_asyncgens(self) -> None:
        for agen in list(self._asyncgens):
            await agen.aclose()

    async def shutdown_default_executor(self, timeout: Any = None) -> None:
        pass

    def stop(self) -> None:
        self._stopping = True

    def close(self) -> None:
        pass

    # -- the simulation

    def _finalize_asyncgen(self, agen: Any) -> None:
        self.call_soon(self.create_task, agen.aclose())

    def _step(self) -> bool:
        """Run one callback.  False when nothing is left to run."""
        while self._timers and (
            self._timers[0][0] <= self._now or self._timers[0][2].cancelled()
        ):
            _, _, h = heapq.heappop(self._timers)
            if not h.cancelled():
                self._ready.append(h)
        while not self._ready:
            while self._timers and self._timers[0][2].cancelled():
                heapq.heappop(self._timers)
            if not self._timers:
                return False
            when = self._timers[0][0]
            self._now = max(self._now, when)
            while self._timers and self._timers[0][0] <= self._now:
                _, _, h = heapq.heappop(self._timers)
                if not h.cancelled():
                    self._ready.append(h)
        i = self.ch.draw(len(self._ready), "ready") if self.random_order else 0
        if len(self._ready) > 1:
            self.ctx.sched(i, len(self._ready))
            if i:
                self.ctx.switches += 1
        h = self._ready.pop(i)
        if not h.cancelled():
            self.steps += 1
            if self.steps > self._max_steps:
                raise RunTooLong(f"more than {self._max_steps} event loop steps")
            h._run()
        return True

    def run_until_complete(self, future: Any) -> Any:
        future = asyncio.ensure_future(future, loop=self)
        import sys

        old = sys.get_asyncgen_hooks()
        self._running = True
        asyncio.events._set_running_loop(self)
        sys.set_asyncgen_hooks(
            firstiter=lambda a: None, finalizer=self._finalize_asyncgen
        )
        try:
            while not future.done():
                if not self._step():
                    raise Violation(
                        "no-progress",
                        "the event loop has nothing left to run, but a task is "
                        "still waiting",
                    )
            # Let callbacks and finalizers finish.
            while self._step():
                pass
        finally:
            sys.set_asyncgen_hooks(*old)
            asyncio.events._set_running_loop(None)
            self._running = False
            self.ctx.steps += self.steps
            self.ctx.sim_time += self._now
        return future.result()
