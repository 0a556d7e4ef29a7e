"""C12: query iterator operations behave as list slicing on the match sequence.

Several handles (from `query`, `take` and `tee`) over one lazily evaluated
upstream are operated on in a seeded interleaving, next to a model made of lists.
The upstream can fail at any pull.
"""

from __future__ import annotations

import json
from typing import Any
from typing import Dict
from typing import List
from typing import Optional

import jsonpath
from jsonpath.fluent_api import Query

from ..canon import canon
from ..canon import match_canon
from ..core import Choices
from ..core import Ctx
from ..core import Violation
from ..core import short
from ..data import Getter
from ..data import SimEnv
from ..data import SimIOError
from .. import gen

RUNS = {"quick": 80000, "thorough": 1000000}

META = {
    "rule": (
        "one evaluation = one simulated run: a history of up to 30 (thorough: 60) "
        "operations on up to 8 handles over one lazy match sequence; non-trivial = the "
        "sequence is not empty and at least two operations took effect; distinct by the "
        "hash of the complete event log"
    ),
    "interleaving_measure": "hash of the sequence of (handle, operation, count) steps",
    "real": ["jsonpath.fluent_api.Query and everything below it"],
    "stub": ["document storage: an item getter or match source that fails on demand"],
    "assumptions": [
        "the reference list is the list of find-iter on an equal document",
        "a handle is not used again after tee, last_one or a view (documented or "
        "unspecified)",
    ],
    "probes": [
        "empty sequence",
        "count beyond the end",
        "zero count",
        "negative count",
        "take then original first",
        "tee interleaved",
        "tee of one or none",
        "tail of a tee",
        "operation on a taken query",
        "upstream failed",
        "sibling unaffected by a failure",
        "compound",
        "chain of five or more",
    ],
}

VIEWS = ("values", "locations", "items", "pointers")
LIMITS = ("limit", "head", "first")
DROPS = ("drop", "skip")
TAILS = ("tail", "last")


class Retry:
    """A match source that fails at given pulls and can be pulled again."""

    def __init__(self, items: List[Any], fail_at: List[int], ctx: Ctx) -> None:
        self.items = items
        self.fail_at = set(fail_at)
        self.pos = 0
        self.pulls = 0
        self.ctx = ctx
        self.failures = 0

    def __iter__(self) -> "Retry":
        return self

    def __next__(self) -> Any:
        i = self.pulls
        self.pulls += 1
        if i in self.fail_at:
            self.failures += 1
            self.ctx.fault("retryable source failure")
            raise SimIOError("transient")
        if self.pos >= len(self.items):
            raise StopIteration
        self.pos += 1
        return self.items[self.pos - 1]


class Handle:
    def __init__(self, name: str, query: Any, model: List[str], origin: str) -> None:
        self.name = name
        self.query = query
        self.model = model
        self.origin = origin
        self.view: Any = None  # (kind, iterator, position)
        self.shaken = False  # a failure went through this handle
        self.alive = True
        self.chain = 0


def run(ch: Choices, ctx: Ctx) -> None:  # noqa: PLR0912, PLR0915
    source_kind = ch.pick(("document", "numbers", "retry"), "source")
    docgen = gen.DocGen(ch)
    getter = Getter()
    env = SimEnv(getter=getter) if ch.chance(1, 2, "environment") else None
    if source_kind == "document":
        doc = docgen.document()
        qgen = gen.QueryGen(ch, [doc], [], ext=not ch.chance(1, 3, "standard"))
        text = qgen.query(25)
        if ch.chance(1, 2, "many matches"):
            text = ch.pick(("$..*", "$.*", "$..[*]", "$..* | $.*", "$..* & $..*",
                            "$..[*, *]", "$[0, *, 0]", "$..[-1, 0, -1]"), "wide")
    else:
        n = ch.pick((3, 1, 2, 0, 5, 8, 4, 6, 12), "length")
        doc = {"a": list(range(n)), "b": [[i] for i in range(n)]}
        text = ch.pick(("$.a[*]", "$.b[*][0]", "$.a[*] | $.b[*]", "$.a[::-1]",
                        "$.a[*] & $.b[*][*]", "$.a[?@ >= 0]", "$.a[0, 1, 0, -1]",
                        "$.a[*, ::-1]", "$.a[*] | $.a[*]"), "query")
    if "|" in text or "&" in text:
        ctx.probe("compound")
    fresh = json.loads(json.dumps(doc))
    try:
        matches = list(jsonpath.finditer(text, fresh))
    except Exception:  # noqa: BLE001
        ctx.count("skipped: the query does not evaluate")
        return
    if len(matches) > 40:
        ctx.probe("long sequence")
    full = [match_canon(m) for m in matches]
    view_of = {
        "values": [canon(m.obj) for m in matches],
        "locations": [m.path for m in matches],
        "items": [f"{m.path} {canon(m.obj)}" for m in matches],
        "pointers": [f"{m.pointer()} {m.pointer().parts!r}" for m in matches],
    }
    # Matches carry their position in the full list, so that models are lists of
    # indices; duplicates are told apart by position.
    index_model = list(range(len(full)))
    ctx.case = f"{text} over {short(canon(doc), 120)} ({len(full)} matches)"
    ctx.log("query", text, canon(doc), len(full))

    # -- the upstream

    upstream: Dict[str, Any] = {"failed": False, "retry": None}
    entry = ch.pick(("module", "environment", "compiled"), "entry")
    fail = ch.chance(1, 4, "faults")
    if source_kind == "retry":
        fails = [ch.draw(len(full) + 2, "fail at") for _ in range(ch.between(0, 2, "fails"))]
        if not fail:
            fails = []
        src = Retry(matches, fails, ctx)
        upstream["retry"] = src
        query: Any = Query(src, env or jsonpath.JSONPathEnvironment())
    elif env is not None:
        if fail:
            at = ch.between(1, 2 * len(full) + 3, "fail at")

            def hook(obj: Any, key: Any) -> None:
                if getter.calls == at:
                    upstream["failed"] = True
                    ctx.fault("item getter failure")
                    raise SimIOError("transient")

            getter.calls = 0
            getter.hook = hook
        try:
            if entry == "compiled":
                query = env.compile(text).query(doc)
            else:
                query = env.query(text, doc)
        except SimIOError:
            # Right operands of an intersection are evaluated eagerly.
            ctx.probe("upstream failed")
            return
    elif entry == "compiled":
        query = jsonpath.compile(text).query(doc)
    else:
        query = jsonpath.query(text, doc)

    handles: List[Handle] = [Handle("q", query, index_model, "query")]
    history: List[str] = []
    names = iter("abcdefghijklmnopqrstuvwxyz")
    effective = 0

    def where() -> str:
        return (
            f"query {text!r}, {len(full)} matches\ndocument {short(canon(doc), 500)}\n"
            f"source {source_kind}\nhistory:\n  " + "\n  ".join(history[-40:])
        )

    def broken(kind: str, why: str) -> Violation:
        return Violation(kind, why + "\n" + where())

    def shaken_anywhere() -> bool:
        """A failure happened: iterators may end early."""
        r = upstream["retry"]
        return upstream["failed"] or (r is not None and r.failures > 0)

    def lenient() -> bool:
        """What an upstream yields after it has failed is unspecified.

        A union goes on with its right operand, for example.  A source that can be
        pulled again goes on where it was.
        """
        return upstream["failed"]

    def note_failure(h: Handle, err: BaseException) -> None:
        r = upstream["retry"]
        if not isinstance(err, SimIOError):
            raise broken("unexpected-error", f"{type(err).__name__}: {err}")
        if r is None and not upstream["failed"]:
            raise broken("unexpected-error", f"{type(err).__name__}: {err}")
        ctx.probe("upstream failed")
        history.append(f"{h.name}: upstream failure")
        h.shaken = True
        # Iterators are not required to survive a failure that went through them.
        h.alive = False

    def expect(h: Handle, got: Optional[Any], what: str) -> None:
        """`got` is a match, or None when the handle says it has no more."""
        if got is None:
            if h.model:
                if h.shaken or shaken_anywhere():
                    h.alive = False  # truncated by the failure
                    return
                raise broken(
                    "match-missing",
                    f"{h.name}: {what} found nothing, {len(h.model)} matches remain, "
                    f"next {full[h.model[0]]}",
                )
            return
        text_ = match_canon(got)
        if lenient() and (not h.model or full[h.model[0]] != text_):
            h.alive = False
            h.model = []
            return
        if not h.model:
            raise broken("match-surplus", f"{h.name}: {what} gave {text_}, none remain")
        if full[h.model[0]] != text_:
            raise broken(
                "wrong-match",
                f"{h.name}: {what} gave {text_}, expected {full[h.model[0]]}",
            )
        h.model = h.model[1:]

    def pull(h: Handle, what: str) -> bool:
        try:
            got = next(iter(h.query), None)
        except Exception as err:  # noqa: BLE001
            note_failure(h, err)
            return False
        expect(h, got, what)
        return got is not None

    def pull_view(h: Handle) -> bool:
        kind, it, _ = h.view
        try:
            got = next(it, None)
        except Exception as err:  # noqa: BLE001
            note_failure(h, err)
            h.alive = False
            return False
        if got is None and not h.model:
            return False
        if got is None and kind == "values":
            # None is a value as well.
            if view_of[kind][h.model[0]] != "None":
                if h.shaken or shaken_anywhere():
                    h.alive = False
                    return False
                raise broken("view-ends-early", f"{h.name}: {len(h.model)} remain")
            if shaken_anywhere():
                h.alive = False
                return False
            h.model = h.model[1:]
            return True
        if got is None:
            if h.shaken or shaken_anywhere():
                h.alive = False
                return False
            raise broken("view-ends-early", f"{h.name}.{kind}: {len(h.model)} remain")
        if kind == "values":
            text_ = canon(got)
        elif kind == "locations":
            text_ = str(got)
        elif kind == "items":
            text_ = f"{got[0]} {canon(got[1])}"
        else:
            text_ = f"{got} {got.parts!r}"
        if lenient() and (not h.model or text_ != view_of[kind][h.model[0]]):
            h.alive = False
            h.model = []
            return False
        if not h.model:
            raise broken("view-surplus", f"{h.name}.{kind} gave {text_}, none remain")
        if text_ != view_of[kind][h.model[0]]:
            raise broken(
                "view-differs",
                f"{h.name}.{kind} gave {text_}, expected {view_of[kind][h.model[0]]}",
            )
        h.model = h.model[1:]
        return True

    def count_for(h: Handle) -> int:
        n = ch.weighted(
            ((6, "within"), (2, "zero"), (2, "end"), (2, "beyond"), (1, "huge")), "count"
        )
        if n == "within":
            return ch.draw(len(h.model) + 1, "n")
        if n == "zero":
            ctx.probe("zero count")
            return 0
        if n == "end":
            return len(h.model)
        ctx.probe("count beyond the end")
        if n == "beyond":
            return len(h.model) + ch.between(1, 3, "n")
        return ch.pick((10**9, 2**40, 2**63 - 1, 2**63, 2**70), "huge")

    steps = ch.between(1, 60 if ctx.tier == "thorough" else 30, "steps")
    if not full:
        ctx.probe("empty sequence")
    pending_taken: List[Handle] = []
    for _ in range(steps):
        live = [h for h in handles if h.alive]
        if not live:
            break
        h = live[ch.draw(len(live), "handle")]
        if h.view is not None:
            ctx.sched(h.name, "view")
            ok = pull_view(h)
            history.append(f"next({h.name}.{h.view[0]}()) -> {'a match' if ok else 'end'}")
            if not ok:
                h.alive = False
            continue
        op = ch.weighted(
            ((3, "limit"), (4, "drop"), (2, "tail"), (4, "take"), (3, "tee"),
             (3, "first_one"), (1, "last_one"), (4, "next"), (1, "view"), (2, "negative"),
             (1, "again")),
            "operation",
        )
        h.chain += 1
        if h.chain >= 5:
            ctx.probe("chain of five or more")
        if h.origin == "take":
            ctx.probe("operation on a taken query")
        before = list(h.model)
        if op in ("tail", "last_one") and shaken_anywhere():
            op = "next"  # where a truncated sequence ends is unspecified
        try:
            if op == "limit":
                n = count_for(h)
                name = ch.pick(LIMITS, "alias")
                history.append(f"{h.name} = {h.name}.{name}({n})")
                h.query = getattr(h.query, name)(n)
                h.model = h.model[:n]
            elif op == "drop":
                n = count_for(h)
                name = ch.pick(DROPS, "alias")
                history.append(f"{h.name} = {h.name}.{name}({n})")
                h.query = getattr(h.query, name)(n)
                h.model = h.model[n:]
            elif op == "tail":
                n = count_for(h)
                name = ch.pick(TAILS, "alias")
                history.append(f"{h.name} = {h.name}.{name}({n})")
                h.query = getattr(h.query, name)(n)
                h.model = h.model[max(0, len(h.model) - n) :]
                if h.origin == "tee":
                    ctx.probe("tail of a tee")
            elif op == "take":
                n = count_for(h)
                name = next(names, "z")
                history.append(f"{name} = {h.name}.take({n})")
                taken = h.query.take(n)
                new = Handle(name, taken, h.model[:n], "take")
                new.shaken = h.shaken
                h.model = h.model[n:]
                if len(handles) < 8:
                    handles.append(new)
                    pending_taken.append(new)
                else:
                    drain(new, pull)
            elif op == "tee":
                if ch.chance(1, 8, "odd tee"):
                    n = ch.draw(2, "n")
                    ctx.probe("tee of one or none")
                else:
                    n = ch.pick((2, 3, 4, 5, 7), "n")
                if len([x for x in handles if x.alive]) + n > 10:
                    n = 1
                default = n == 2 and ch.chance(1, 2, "default count")
                copies = h.query.tee() if default else h.query.tee(n)
                if len(copies) != n:
                    raise broken("tee-count", f"tee({n}) gave {len(copies)} iterators")
                news = []
                for c in copies:
                    new = Handle(next(names, "z"), c, list(h.model), "tee")
                    new.shaken = h.shaken
                    news.append(new)
                history.append(
                    f"{', '.join(x.name for x in news)} = {h.name}.tee({n})"
                )
                h.alive = False
                handles.extend(news)
                if n > 1:
                    ctx.probe("tee interleaved")
            elif op == "first_one":
                name = ch.pick(("first_one", "one"), "alias")
                history.append(f"{h.name}.{name}()")
                got = getattr(h.query, name)()
                expect(h, got, name)
            elif op == "last_one":
                history.append(f"{h.name}.last_one()")
                got = h.query.last_one()
                h.model = h.model[-1:]
                expect(h, got, "last_one")
                h.alive = False
            elif op == "next":
                n = ch.between(1, 3, "n")
                history.append(f"{n} x next(iter({h.name}))")
                for _ in range(n):
                    if not pull(h, "next"):
                        break
                if pending_taken and h.origin != "take":
                    ctx.probe("take then original first")
            elif op == "view":
                kind = ch.pick(VIEWS, "view")
                history.append(f"{h.name}.{kind}()")
                h.view = (kind, iter(getattr(h.query, kind)()), 0)
            elif op == "negative":
                name = ch.pick(
                    LIMITS + DROPS + TAILS + ("take", "tee"), "refused operation"
                )
                n = -ch.pick((1, 2, 5, 1000, 2**31, 2**63, 2**70), "n")
                history.append(f"{h.name}.{name}({n})")
                ctx.probe("negative count")
                try:
                    getattr(h.query, name)(n)
                except ValueError:
                    pass
                else:
                    raise broken("negative-accepted", f"{name}({n}) was not refused")
            else:
                history.append(f"iter({h.name})")
                iter(h.query)
            if op not in ("negative", "again"):
                effective += 1
        except Violation:
            raise
        except Exception as err:  # noqa: BLE001
            h.model = before
            note_failure(h, err)
            # Part of the operation may have happened.
            h.alive = False
            continue
        ctx.sched(h.name, op, len(h.model))
        ctx.log(history[-1], len(h.model))
        ctx.count("operations")

    # -- drain what is left, interleaved

    live = [h for h in handles if h.alive]
    if source_kind == "retry" and upstream["retry"].failures and len(live) > 0:
        ctx.probe("sibling unaffected by a failure")
    style = ch.draw(3, "drain style")
    history.append("drain " + ", ".join(h.name for h in live))
    guard = 0
    while live:
        guard += 1
        if guard > 20000:
            raise broken("no-progress", "draining never ends")
        i = ch.draw(len(live), "drain") if style == 2 else (0 if style == 0 else -1)
        h = live[i]
        more = pull_view(h) if h.view is not None else pull(h, "drain")
        if not h.alive:
            live.remove(h)
            continue
        if not more:
            if h.shaken or shaken_anywhere():
                live.remove(h)
                continue
            live.remove(h)
        ctx.count("matches compared")
    ctx.log("end", len(history))
    ctx.nontrivial = bool(full) and effective >= 2
    if getter.hook is not None:
        getter.hook = None


def drain(h: Handle, pull: Any) -> None:
    for _ in range(1000):
        if not pull(h, "drain taken"):
            return
