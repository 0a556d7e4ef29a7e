"""Choices, run context and violations: what every simulated run is made of.

One simulated run is a pure function of a sequence of small integers, its
choices.  While exploring, the choices come from a PRNG seeded with
(VERIF_SEED, property, run index); while replaying or shrinking they come from
a list, followed by zeros.  Zero always means the simplest alternative: no
fault, no preemption, the smallest value.
"""

from __future__ import annotations

import hashlib
import random
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Sequence


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, kind: str, detail: str) -> None:
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class RunTooLong(BaseException):
    """The run used up its deterministic budget of executed lines."""


class Choices:
    """A recorded stream of bounded integers."""

    MAX = 400_000

    def __init__(
        self, seed: Optional[str] = None, replay: Optional[Sequence[int]] = None
    ) -> None:
        self.replay = list(replay) if replay is not None else None
        self.rng = random.Random(seed) if seed is not None else None
        self.values: List[int] = []
        self.labels: List[str] = []

    def draw(self, n: int, label: str = "") -> int:
        """Return an integer i, 0 <= i < n."""
        if n <= 1:
            return 0
        i = len(self.values)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n:
                v %= n
        else:
            v = int(self.rng.random() * n)  # type: ignore
        if i > self.MAX:
            raise RunTooLong("too many choices")
        self.values.append(v)
        self.labels.append(label)
        return v

    def pick(self, seq: Sequence[Any], label: str = "") -> Any:
        return seq[self.draw(len(seq), label)]

    def chance(self, num: int, den: int, label: str = "") -> bool:
        """True with probability num/den.  Zero is False."""
        if num <= 0:
            return False
        return self.draw(den, label) >= den - num

    def between(self, a: int, b: int, label: str = "") -> int:
        return a + self.draw(b - a + 1, label)

    def weighted(self, table: Sequence[Any], label: str = "") -> Any:
        """Pick from ((weight, value), ...).  Zero is the first value."""
        total = sum(w for w, _ in table)
        x = self.draw(total, label)
        for w, v in table:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def shuffle(self, seq: List[Any], label: str = "") -> None:
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i, label)
            seq[i], seq[j] = seq[j], seq[i]

    def subset(self, seq: Sequence[Any], num: int, den: int, label: str = "") -> List[Any]:
        return [x for x in seq if self.chance(num, den, label)]


class Ctx:
    """What a run reports: its event log, fault counters, probes and measures.

    Nothing here draws a choice or reads a clock.
    """

    MAX_LOG = 4000

    def __init__(self, tier: str = "quick", keep_log: bool = False) -> None:
        self.tier = tier
        self.keep_log = keep_log
        self.events: List[str] = []
        self.n_events = 0
        self._h = hashlib.sha256()
        self._s = hashlib.sha256()
        self.faults: Dict[str, int] = {}
        self.probes: Dict[str, int] = {}
        self.counts: Dict[str, int] = {}
        self.sim_time = 0.0
        self.steps = 0
        self.switches = 0
        self.nontrivial = False
        self.case = ""
        self.known: List[str] = []
        self.decision = None  # set by schedulers

    def log(self, *parts: Any) -> None:
        text = " ".join(str(p) for p in parts)
        self._h.update(text.encode("utf-8", "surrogatepass"))
        self._h.update(b"\n")
        self.n_events += 1
        if self.keep_log and len(self.events) < self.MAX_LOG:
            self.events.append(text)

    def sched(self, *parts: Any) -> None:
        """Record a scheduling decision for the distinct-interleavings measure."""
        self._s.update(repr(parts).encode("utf-8", "surrogatepass"))

    def fault(self, name: str, n: int = 1) -> None:
        self.faults[name] = self.faults.get(name, 0) + n

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] = self.probes.get(name, 0) + n

    def count(self, name: str, n: int = 1) -> None:
        self.counts[name] = self.counts.get(name, 0) + n

    def result(self) -> Dict[str, Any]:
        return {
            "log_sha": self._h.hexdigest(),
            "sched_sha": self._s.hexdigest()[:16],
            "n_events": self.n_events,
            "faults": self.faults,
            "probes": self.probes,
            "counts": self.counts,
            "sim_time": self.sim_time,
            "steps": self.steps,
            "switches": self.switches,
            "nontrivial": self.nontrivial,
            "case": self.case,
            "known": self.known,
        }


def short(obj: Any, n: int = 300) -> str:
    text = obj if isinstance(obj, str) else repr(obj)
    return text if len(text) <= n else text[: n - 3] + "..."
