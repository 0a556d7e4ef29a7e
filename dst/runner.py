"""Seeded search over simulated runs: workers, shrinking, replay files, evidence."""

from __future__ import annotations

import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Sequence
from typing import Tuple

from . import boot
from .core import Choices
from .core import Ctx
from .core import RunTooLong
from .core import Violation
from .core import short
from .pristine import library_frame

RUN_WALL = 20.0  # watchdog only: a run takes milliseconds
LINE_BUDGET = 10_000_000  # executed lines of library code, deterministic
RETRY_WALL = 200.0
PATIENCE = 150.0
BATCH_WALL = {"quick": 560.0, "thorough": 3000.0}
SHRINK_WALL = 60.0
SHRINK_RUNS = 2500
MEMORY = 6 << 30


def run_seed(seed: int, prop: str, index: int) -> str:
    return f"{seed}/{prop}/{index}"


# ---------------------------------------------------------------- one run


def execute(
    mod: Any, ch: Choices, tier: str, *, keep_log: bool = False, budget: bool = False
) -> Dict[str, Any]:
    """Execute one run in this process.  Call in a forked child only."""
    ctx = Ctx(tier, keep_log)
    ctx.line_budget = LINE_BUDGET if budget else 0  # type: ignore
    out: Dict[str, Any]
    status, kind, detail = "ok", "", ""
    if budget:
        _install_budget()
    try:
        mod.run(ch, ctx)
    except Violation as err:
        status, kind, detail = "violation", err.kind, err.detail
    except RunTooLong as err:
        status, kind, detail = "violation", "nontermination", str(err)
    except BaseException as err:  # noqa: BLE001
        sys.settrace(None)
        text = "".join(traceback.format_exception(err))
        if isinstance(err, Exception) and library_frame(err.__traceback__):
            status = "violation"
            kind = f"library-raised-{type(err).__name__}"
            detail = "the library raised where a result was due:\n" + text[-3000:]
        else:
            status, kind, detail = "error", type(err).__name__, text[-6000:]
    finally:
        sys.settrace(None)
    out = ctx.result()
    out["status"], out["kind"], out["detail"] = status, kind, detail
    if status != "ok" or keep_log:
        out["choices"] = ch.values
        out["labels"] = ch.labels
        out["events"] = ctx.events
    return out


def _install_budget() -> None:
    root = os.path.realpath(boot.REPO) + os.sep
    left = [LINE_BUDGET]

    def trace(frame: Any, event: str, arg: Any) -> Any:
        if frame.f_code.co_filename.startswith(root):
            return local
        return None

    def local(frame: Any, event: str, arg: Any) -> Any:
        left[0] -= 1
        if left[0] < 0:
            raise RunTooLong(
                f"{LINE_BUDGET} lines of library code executed without finishing, "
                f"last in {os.path.basename(frame.f_code.co_filename)}:"
                f"{frame.f_code.co_name}"
            )
        return local

    from . import threads

    threads.BUDGET = left
    sys.settrace(trace)


def _unraisable(info: Any) -> None:
    """An interrupt that hits a generator being closed is lost, as in real life."""
    if not issubclass(info.exc_type, (KeyboardInterrupt, MemoryError)) and (
        info.exc_type.__module__.split(".")[0] != "dst"
    ):
        sys.__unraisablehook__(info)


def _child(
    fd: int, mod: Any, ch: Choices, tier: str, keep_log: bool, budget: bool
) -> None:
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        sys.unraisablehook = _unraisable
        out = execute(mod, ch, tier, keep_log=keep_log, budget=budget)
        data = pickle.dumps(out, protocol=4)
    except BaseException:  # noqa: BLE001
        data = pickle.dumps(
            {
                "status": "error",
                "kind": "child",
                "detail": traceback.format_exc()[-4000:],
            }
        )
    try:
        view = memoryview(data)
        while view:
            n = os.write(fd, view)
            view = view[n:]
    finally:
        os._exit(0)


def fork_run(
    mod: Any,
    ch: Choices,
    tier: str,
    *,
    keep_log: bool = False,
    budget: bool = False,
    wall: float = RUN_WALL,
) -> Dict[str, Any]:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(w, mod, ch, tier, keep_log, budget)
        os._exit(0)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(r, 1 << 20)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    if timed_out:
        for target in (-pid, pid):
            try:
                os.kill(target, signal.SIGKILL)
            except OSError:
                pass
    _, st = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "timeout", "kind": "timeout", "detail": f"{wall}s"}
    blob = b"".join(chunks)
    if not blob:
        return {"status": "died", "kind": "died", "detail": f"wait status {st}"}
    return pickle.loads(blob)


def full_run(
    mod: Any,
    tier: str,
    *,
    seed: Optional[str] = None,
    choices: Optional[Sequence[int]] = None,
    keep_log: bool = False,
    final: bool = False,
) -> Dict[str, Any]:
    """One run, with a deterministic decision when the watchdog fires.

    With `final`, a run that was judged endless before: straight to the line budget.
    """
    out = {"status": "timeout", "detail": "known"}
    if not final:
        out = fork_run(mod, Choices(seed, choices), tier, keep_log=keep_log)
    if out["status"] in ("timeout", "died"):
        again = fork_run(
            mod,
            Choices(seed, choices),
            tier,
            keep_log=keep_log,
            budget=True,
            wall=RETRY_WALL,
        )
        if again["status"] in ("timeout", "died"):
            return {
                "status": "error",
                "kind": again["kind"],
                "detail": f"no answer twice: {out['detail']}, {again['detail']}",
            }
        if again["kind"] == "nontermination" and not final:
            # Slow or endless?  Only if it gets nowhere in much more time is it
            # called endless; from then on the line budget stands for that.
            patient = fork_run(
                mod, Choices(seed, choices), tier, keep_log=keep_log, wall=PATIENCE
            )
            if patient["status"] not in ("timeout", "died"):
                return patient
        return again
    return out


# ---------------------------------------------------------------- a batch


class Totals:
    def __init__(self) -> None:
        self.runs = 0
        self.nontrivial = 0
        self.faults: Dict[str, int] = {}
        self.fault_runs: Dict[str, int] = {}
        self.probes: Dict[str, int] = {}
        self.counts: Dict[str, int] = {}
        self.sim_time = 0.0
        self.steps = 0
        self.switches = 0
        self.events = 0
        self.scheds: set = set()
        self.logs: set = set()
        self.samples: List[Any] = []
        self.errors: List[Any] = []
        self.known: Dict[str, int] = {}
        self.violation: Optional[Dict[str, Any]] = None
        self.truncated = 0
        self.slowest = (0.0, -1)  # wall seconds, index
        self.digest = hashlib.sha256()

    def add(self, index: int, out: Dict[str, Any]) -> None:
        self.runs += 1
        for name in ("faults", "probes", "counts"):
            mine = getattr(self, name)
            for k, v in out[name].items():
                mine[k] = mine.get(k, 0) + v
        for k in out["faults"]:
            self.fault_runs[k] = self.fault_runs.get(k, 0) + 1
        self.sim_time += out["sim_time"]
        self.steps += out["steps"]
        self.switches += out["switches"]
        self.events += out["n_events"]
        for k in out["known"]:
            self.known[k] = self.known.get(k, 0) + 1
        if out["nontrivial"]:
            self.nontrivial += 1
            self.scheds.add(bytes.fromhex(out["sched_sha"]))
            self.logs.add(bytes.fromhex(out["log_sha"][:16]))
        self.digest.update(f"{index}:{out['log_sha']}\n".encode())
        if out["case"] and len(self.samples) < 3 and out["nontrivial"]:
            self.samples.append({"index": index, "case": out["case"]})

    def merge(self, other: "Totals") -> None:
        for name in ("runs", "nontrivial", "sim_time", "steps", "switches", "events"):
            setattr(self, name, getattr(self, name) + getattr(other, name))
        for name in ("faults", "fault_runs", "probes", "counts", "known"):
            mine = getattr(self, name)
            for k, v in getattr(other, name).items():
                mine[k] = mine.get(k, 0) + v
        self.scheds |= other.scheds
        self.logs |= other.logs
        self.samples += other.samples
        self.errors += other.errors
        self.truncated += other.truncated
        self.slowest = max(self.slowest, other.slowest)
        if other.violation and (
            self.violation is None
            or other.violation["index"] < self.violation["index"]
        ):
            self.violation = other.violation


class Batch:
    def __init__(
        self,
        prop: str,
        tier: str,
        seed: int,
        runs: int,
        workers: int,
        start: int = 0,
        per_run_log: bool = False,
    ) -> None:
        self.prop, self.tier, self.seed = prop, tier, seed
        self.runs, self.workers, self.start = runs, workers, start
        self.per_run_log = per_run_log
        self.mod = importlib.import_module(f"dst.props.{prop.lower()}")
        self.shared = mmap.mmap(-1, 16)
        self.shared[:8] = struct.pack("<q", 1 << 60)
        self.wall = BATCH_WALL[tier]

    def _worst(self) -> int:
        return struct.unpack("<q", self.shared[:8])[0]

    def _found(self, index: int) -> None:
        # Racy between workers, but only the report's lowest index matters and
        # that is recomputed by the parent.
        if index < self._worst():
            self.shared[:8] = struct.pack("<q", index)

    def _worker(self, w: int, fd: int) -> None:
        totals = Totals()
        logs: List[Tuple[int, str]] = []
        t0 = time.monotonic()
        errors = 0
        for i in range(w, self.runs, self.workers):
            index = self.start + i
            if index > self._worst():
                continue
            if time.monotonic() - t0 > self.wall:
                totals.truncated += 1
                continue
            began = time.monotonic()
            out = full_run(
                self.mod, self.tier, seed=run_seed(self.seed, self.prop, index)
            )
            totals.slowest = max(totals.slowest, (time.monotonic() - began, index))
            if out["status"] == "error":
                errors += 1
                if len(totals.errors) < 3:
                    totals.errors.append((index, out["kind"], out["detail"]))
                if errors > 20:
                    break
                continue
            totals.add(index, out)
            if self.per_run_log:
                logs.append((index, out["log_sha"] + out["sched_sha"]))
            if out["status"] == "violation":
                out["index"] = index
                if totals.violation is None:
                    totals.violation = out
                self._found(index)
        totals.digest = None  # type: ignore
        data = pickle.dumps((totals, logs), protocol=4)
        view = memoryview(data)
        while view:
            n = os.write(fd, view)
            view = view[n:]

    def explore(self) -> Totals:
        procs = []
        sys.stdout.flush()
        sys.stderr.flush()
        gc.collect()
        gc.freeze()
        for w in range(self.workers):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for _, other in procs:
                        os.close(other)
                    self._worker(w, wfd)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wfd)
            procs.append((pid, r))
        totals = Totals()
        self.logs: Dict[int, str] = {}
        bufs = {r: [] for _, r in procs}
        open_fds = set(bufs)
        while open_fds:
            ready, _, _ = select.select(list(open_fds), [], [])
            for r in ready:
                data = os.read(r, 1 << 20)
                if data:
                    bufs[r].append(data)
                else:
                    open_fds.discard(r)
                    os.close(r)
        for pid, r in procs:
            _, st = os.waitpid(pid, 0)
            blob = b"".join(bufs[r])
            if st != 0 or not blob:
                totals.errors.append((-1, "worker", f"worker {pid} status {st}"))
                continue
            part, logs = pickle.loads(blob)
            totals.merge(part)
            self.logs.update(dict(logs))
        totals.samples.sort(key=lambda s: s["index"])
        totals.samples = totals.samples[:4]
        return totals


# ---------------------------------------------------------------- shrinking


def shrink(mod: Any, tier: str, out: Dict[str, Any]) -> Dict[str, Any]:
    """Minimise the choices while the same kind of violation persists."""
    kind = out["kind"]
    best = out
    spent = 0
    t0 = time.monotonic()
    seen = set()

    def budget_left() -> bool:
        return spent < SHRINK_RUNS and time.monotonic() - t0 < SHRINK_WALL

    if kind == "nontermination":
        return best

    def attempt(values: List[int]) -> bool:
        nonlocal best, spent
        while values and values[-1] == 0:
            values = values[:-1]
        key = tuple(values)
        if key in seen or not budget_left():
            return False
        seen.add(key)
        spent += 1
        res = fork_run(mod, Choices(None, values), tier, wall=10.0)
        if res["status"] == "violation" and res["kind"] == kind:
            got = res["choices"]
            while got and got[-1] == 0:
                got = got[:-1]
            old = best["choices"]
            if (len(got), sum(got)) < (len(old), sum(old)):
                best = dict(res, choices=got)
                return True
        return False

    attempt(list(out["choices"]))
    improved = True
    while improved and budget_left():
        improved = False
        # Cut the tail.
        n = len(best["choices"])
        lo = n // 2
        while lo and budget_left():
            if attempt(best["choices"][: len(best["choices"]) - lo]):
                improved = True
                lo = min(lo, len(best["choices"]) // 2)
            else:
                lo //= 2
        # Delete and zero blocks.
        size = max(1, min(64, len(best["choices"]) // 2))
        while size >= 1 and budget_left():
            i = 0
            while i < len(best["choices"]) and budget_left():
                vals = best["choices"]
                if attempt(vals[:i] + vals[i + size :]):
                    improved = True
                    continue
                if any(vals[i : i + size]) and attempt(
                    vals[:i] + [0] * len(vals[i : i + size]) + vals[i + size :]
                ):
                    improved = True
                i += size
            size //= 2
        # Lower single values.
        i = 0
        while i < len(best["choices"]) and budget_left():
            v = best["choices"][i]
            for smaller in {v // 2, v - 1, 1}:
                if 0 < smaller < v:
                    vals = list(best["choices"])
                    vals[i] = smaller
                    if attempt(vals):
                        improved = True
                        break
            i += 1
    best = dict(best)
    best["shrink_runs"] = spent
    return best


# ---------------------------------------------------------------- reporting


def write_replay(
    prop: str, tier: str, seed: int, found: Dict[str, Any], best: Dict[str, Any], mod: Any
) -> str:
    final = full_run(
        mod,
        tier,
        choices=best["choices"],
        keep_log=True,
        final=best["kind"] == "nontermination",
    )
    if final["status"] != "violation":
        final = dict(best, events=[], labels=[])
    folder = os.path.join(boot.OUT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-{seed}-{found['index']}.json")
    labels = final.get("labels") or []
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "index": found["index"],
        "run_seed": run_seed(seed, prop, found["index"]),
        "violation": {"kind": final["kind"], "detail": final["detail"]},
        "case": final.get("case", ""),
        "log_sha256": final["log_sha"],
        "choices": final["choices"],
        "choice_labels": labels,
        "original_choices": len(found["choices"]),
        "shrink_runs": best.get("shrink_runs", 0),
        "trace": final.get("events", []),
    }
    with open(path, "w", encoding="utf-8", errors="backslashreplace") as fd:
        json.dump(doc, fd, indent=1)
        fd.write("\n")
    return path


def verify_replay(path: str) -> bool:
    """Replay in a fresh interpreter.  Same violation, same log."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("DST_", "PYTHON"))}
    res = subprocess.run(
        [sys.executable, os.path.join(boot.VERIF, "replay.py"), "--quiet", path],
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=300,
        check=False,
    )
    return res.returncode == 1 and b"REPRODUCED" in res.stdout


def known_findings(prop: str) -> List[Dict[str, str]]:
    path = os.path.join(boot.VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as fd:
            doc = json.load(fd)
    except FileNotFoundError:
        return []
    return [f for f in doc["findings"] if f["property"] == prop]


def check(
    prop: str, tier: str, seed: int, workers: int, runs: Optional[int], first: bool = False
) -> int:
    t0 = time.monotonic()
    mod = importlib.import_module(f"dst.props.{prop.lower()}")
    n = runs if runs is not None else mod.RUNS[tier]
    batch = Batch(prop, tier, seed, n, workers)
    totals = batch.explore()
    explore_s = time.monotonic() - t0
    code = 0
    replay_path = None
    unreproduced = False
    if totals.violation is not None and first:
        v = totals.violation
        print(f"found: run {v['index']} {v['kind']}: {short(v['detail'], 400)}")
        return 1
    if totals.violation is not None:
        found = totals.violation
        best = shrink(mod, tier, found)
        ok = False
        for candidate in (best, found):
            replay_path = write_replay(prop, tier, seed, found, candidate, mod)
            ok = verify_replay(replay_path)
            if ok:
                break
        if ok:
            code = 1
        else:
            code = 2
            unreproduced = True
    elif totals.errors or totals.runs == 0 or totals.truncated > n * 3 // 4:
        code = 2
    findings = known_findings(prop)
    if hasattr(mod, "known_check"):
        for finding in findings:
            if finding.get("status") == "open" and mod.known_check(finding):
                print(f"KNOWN-FINDING: property={prop} {finding['what']}")
    write_evidence(prop, tier, seed, mod, totals, n, time.monotonic() - t0, explore_s, code)
    for index, kind, detail in totals.errors:
        print(f"HARNESS-ERROR run {index}: {kind}\n{detail}", file=sys.stderr)
    rate = totals.runs / max(explore_s, 1e-9) * 3600
    print(
        f"{prop} {tier} seed={seed}: {totals.runs}/{n} runs in {explore_s:.1f}s "
        f"({rate:,.0f}/h), {len(totals.scheds)} distinct schedules, "
        f"{sum(totals.faults.values())} faults, exit {code}"
    )
    if code == 1:
        v = totals.violation
        print(f"  kind: {best['kind']}")
        print("  " + short(best["detail"], 1500).replace("\n", "\n  "))
        print(
            f"  run {v['index']}, {len(v['choices'])} choices minimised to "
            f"{len(best['choices'])}"
        )
        print(f"VIOLATION property={prop} replay={replay_path}")
    elif unreproduced:
        print(
            f"HARNESS-ERROR: run {totals.violation['index']} "
            f"({totals.violation['kind']}) did not replay: "
            f"{short(totals.violation['detail'], 2000)}",
            file=sys.stderr,
        )
    sys.stdout.flush()
    return code


def write_evidence(
    prop: str,
    tier: str,
    seed: int,
    mod: Any,
    t: Totals,
    planned: int,
    wall: float,
    explore_s: float,
    code: int,
) -> None:
    meta = mod.META
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": len(t.logs),
            "rule": meta["rule"],
            "samples": t.samples,
            "planned_runs": planned,
            "runs_not_started_wall_cap": t.truncated,
            "nontrivial_runs": t.nontrivial,
            "runs_per_hour": round(t.runs / max(explore_s, 1e-9) * 3600),
            "seeds_per_hour": round(t.runs / max(explore_s, 1e-9) * 3600),
            "simulated_seconds": round(t.sim_time, 3),
            "simulated_steps": t.steps,
            "context_switches": t.switches,
            "logged_events": t.events,
            "slowest_run_s": round(t.slowest[0], 3),
            "slowest_run_index": t.slowest[1],
            "distinct_interleavings": len(t.scheds),
            "interleaving_measure": meta["interleaving_measure"],
            "faults_injected": dict(sorted(t.faults.items())),
            "runs_with_fault": dict(sorted(t.fault_runs.items())),
            "probes": dict(sorted(t.probes.items())),
            "probes_at_zero": [p for p in meta.get("probes", []) if not t.probes.get(p)],
            "checks_made": dict(sorted(t.counts.items())),
            "real_components": meta["real"],
            "stub_components": meta["stub"],
            "harness_errors": len(t.errors),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": 1 if code == 1 else 0,
    }
    folder = os.path.join(boot.OUT, "evidence")
    os.makedirs(folder, exist_ok=True)
    tmp = os.path.join(folder, f".{prop}.json.tmp")
    with open(tmp, "w", encoding="utf-8", errors="backslashreplace") as fd:
        json.dump(doc, fd, indent=1)
        fd.write("\n")
    os.replace(tmp, os.path.join(folder, f"{prop}.json"))
