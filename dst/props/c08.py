"""C08: the asynchronous API returns exactly what the synchronous API returns.

Many tasks share compiled queries, environments and documents on a simulated
event loop.  Item getters suspend for seeded lengths of virtual time.  The
synchronous API, run first, is the reference.
"""

from __future__ import annotations

import asyncio
import io
import json
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

import jsonpath

from ..aioloop import SimLoop
from ..canon import canon
from ..canon import match_canon
from ..core import Choices
from ..core import Ctx
from ..core import Violation
from ..core import short
from ..data import Getter
from ..data import FunctionsEnv
from ..data import SimEnv
from ..data import SimIOError
from ..data import containers
from ..data import kind_of
from ..data import proxy
from .. import gen

RUNS = {"quick": 40000, "thorough": 150000}

META = {
    "rule": (
        "one evaluation = one simulated run: 1-12 queries x 1-3 documents, evaluated "
        "synchronously, then by 1-13 tasks on one simulated event loop; non-trivial = at "
        "least one task suspended inside an evaluation that has matches or an error to "
        "report; distinct by the hash of the complete event log"
    ),
    "interleaving_measure": (
        "hash of the sequence of (ready-queue length, callback chosen) decisions where "
        "more than one callback was ready"
    ),
    "real": [
        "jsonpath: lexer, parser, selectors, filters, paths, environment, async and sync "
        "evaluation",
        "asyncio Task, Future, wait_for and async generator machinery of CPython",
    ],
    "stub": [
        "event loop (simulated, virtual time, seeded ready queue)",
        "document storage: item getters that suspend or fail",
    ],
    "assumptions": [
        "queries and documents come from the generators in dst/gen.py",
        "regular expressions are a handful of simple ones",
        "item getters return the same items synchronously and asynchronously",
    ],
    "probes": [
        "error reached by sync evaluation",
        "wild on string",
        "deterministic site error",
        "compound",
        "text document",
        "file document",
        "proxy document",
        "two tasks inside one compiled query",
        "cancelled inside a getter",
        "timed out",
        "closed early",
        "abandoned",
        "compile error",
        "package level",
        "focus",
        "mirrored lists",
        "functions of our own",
        "containers occurring more than once",
    ],
}


def outcome_sync(call: Any) -> Tuple[str, Any, List[str]]:
    """(status, kind, items) of a synchronous find-iter."""
    items: List[str] = []
    try:
        for m in call():
            items.append(match_canon(m))
    except Exception as err:  # noqa: BLE001
        return ("err", kind_of(err), items)
    return ("ok", "", items)


def values_sync(call: Any) -> Tuple[str, Any, List[str]]:
    try:
        return ("ok", "", [canon(v) for v in call()])
    except Exception as err:  # noqa: BLE001
        return ("err", kind_of(err), [])


def run(ch: Choices, ctx: Ctx) -> None:  # noqa: PLR0912, PLR0915
    docgen = gen.DocGen(ch, widest=12)
    ext = not ch.chance(1, 5, "standard only")
    custom = ch.chance(1, 3, "functions of our own")
    if custom:
        ctx.probe("functions of our own")
    focus: Optional[gen.Focus] = None
    if ch.chance(2, 5, "focus"):
        ctx.probe("focus")
        focus = gen.Focus(ch, custom, ext)
    n_docs = ch.between(1, 3, "documents")
    mirror = ext and not focus and ch.chance(1, 10, "mirror")
    if mirror:
        ctx.probe("mirrored lists")
        plain_docs = [gen.mirrored(ch, docgen)]
    else:
        plain_docs = [focus.document() if focus else docgen.document()]
    while len(plain_docs) < n_docs:
        if mirror:
            plain_docs.append(gen.mirrored(ch, docgen))
        elif focus:
            plain_docs.append(focus.document())
        elif ch.chance(2, 3, "similar"):
            plain_docs.append(gen.sibling(ch, plain_docs[0], docgen))
        else:
            plain_docs.append(docgen.document())
    contexts: List[Any] = [None]
    if ch.chance(1, 2, "context"):
        contexts = [
            focus.context() if focus else gen.context(ch, docgen)
            for _ in range(ch.between(1, 2, "contexts"))
        ]

    well_typed = not ch.chance(1, 4, "no type checks")
    env_kw: Dict[str, Any] = {
        "well_typed": well_typed,
        "filter_caching": not ch.chance(1, 3, "no caching"),
        "unicode_escape": not ch.chance(1, 8, "no unicode escape"),
    }
    mode = ch.pick(
        ("env getter",) * 4 + ("proxies",) * 3 + ("both",) * 2 + ("plain",),
        "getter mode",
    )
    getter = Getter()
    env: Any
    if mode in ("env getter", "both"):
        env = SimEnv(getter=getter, **env_kw)
    else:
        env = FunctionsEnv(**env_kw)
    use_proxies = mode in ("proxies", "both")
    raw = plain_docs
    if ch.chance(1, 6, "shared containers"):
        ctx.probe("containers occurring more than once")
        raw = [gen.share(ch, d) for d in plain_docs]
    docs = [proxy(d, getter) if use_proxies else d for d in raw]
    if use_proxies:
        ctx.probe("proxy document")
        if contexts[0] is not None and ch.chance(1, 2, "proxy context"):
            contexts = [proxy(c, getter) for c in contexts]

    qgen = gen.QueryGen(
        ch,
        plain_docs,
        [c if isinstance(c, dict) else _raw(c) for c in contexts if c is not None],
        ext=ext,
        rooty=ch.pick((2, 1, 4), "rooty"),
        well_typed=well_typed,
        custom=custom,
    )
    # Many different queries at once, or a few that tasks are likely to share.
    wide = ch.chance(1, 2, "wide")

    def query() -> str:
        if not mirror or ch.chance(1, 4, "not mirrored"):
            return focus.query() if focus else qgen.query(25)
        parts, ops = gen.mirror_query(ch, plain_docs[0])
        return "".join(p + f" {op} " for p, op in zip(parts, ops)) + parts[-1]

    texts = [
        query()
        for _ in range(12 if wide else ch.between(1, 2 if focus else 4, "queries"))
    ]
    if ch.chance(1, 10, "malformed"):
        texts.append(qgen.mutated(texts[0]))

    # Deterministic failures: the same item fails in both APIs.
    if mode != "plain" and ch.chance(1, 4, "failing sites"):
        spots = [s for d in docs for s in containers(d)]
        if spots:
            for _ in range(ch.between(1, 3, "sites")):
                obj, key = ch.pick(spots, "site")
                mapping = hasattr(obj, "keys")
                # An absent item is a KeyError of a mapping and an IndexError of
                # a sequence.  The other way round they are failures.
                err = ch.pick(
                    (SimIOError, IndexError if mapping else KeyError, ValueError,
                     RuntimeError, TypeError),
                    "site error",
                )
                if not mapping:
                    if ch.chance(1, 4, "slice site"):
                        key = "slice"
                getter.sites[(id(obj), key)] = err

    # -- reference

    compiled: List[Any] = []
    refs: Dict[Tuple[int, int, int, str], Any] = {}
    good: List[int] = []
    for qi, text in enumerate(texts):
        try:
            compiled.append(env.compile(text))
            good.append(qi)
            if "|" in text or "&" in text:
                ctx.probe("compound")
        except Exception as err:  # noqa: BLE001
            compiled.append(kind_of(err))
            ctx.probe("compile error")
    forms = ["value"]
    if ch.chance(1, 4, "text form"):
        forms.append("text")
    if ch.chance(1, 6, "file form"):
        forms.append("file")

    def source(di: int, form: str) -> Any:
        if form == "value":
            return docs[di]
        text = json.dumps(plain_docs[di])
        return text if form == "text" else io.StringIO(text)

    def reference(qi: int, di: int, ci: int, form: str) -> Any:
        key = (qi, di, ci, form)
        if key not in refs:
            before = getter.hits
            fc = contexts[ci]
            it = outcome_sync(
                lambda: env.finditer(texts[qi], source(di, form), filter_context=fc)
            )
            all_ = values_sync(
                lambda: env.findall(texts[qi], source(di, form), filter_context=fc)
            )
            refs[key] = (it, all_)
            if it[0] == "err":
                ctx.probe("error reached by sync evaluation")
            if getter.hits > before:
                ctx.probe("deterministic site error")
                ctx.fault("item getter failure, both APIs", getter.hits - before)
            ctx.log("ref", qi, di, ci, form, it[0], it[1], "|".join(it[2]))
        return refs[key]

    # -- tasks

    n_tasks = len(texts) if wide else ch.between(1, 7, "tasks")
    faulty = ch.chance(1, 3, "faults")
    plans: List[Dict[str, Any]] = []
    for t in range(n_tasks):
        plan: Dict[str, Any] = {"name": f"t{t}", "fault": None}
        plan["q"] = t if wide else ch.draw(len(texts), "task query")
        plan["d"] = ch.draw(len(docs), "task document")
        plan["c"] = ch.draw(len(contexts), "task context")
        plan["form"] = ch.pick(forms, "task form")
        plan["api"] = ch.pick(
            ("compiled iter", "compiled all", "env iter", "env all", "package iter",
             "package all"),
            "entry point",
        )
        if plan["api"].startswith("package") and (
            mode in ("env getter", "both") or not well_typed or custom
        ):
            plan["api"] = plan["api"].replace("package", "env")
        if plan["api"].startswith("package"):
            ctx.probe("package level")
        if faulty and ch.chance(1, 2, "fault here"):
            plan["fault"] = ch.pick(
                ("cancel", "transient", "timeout", "close", "abandon"), "fault kind"
            )
            plan["at"] = ch.between(1, 12, "fault at")
        plans.append(plan)
        reference(plan["q"], plan["d"], plan["c"], plan["form"])
        if plan["api"].startswith("package"):
            # The package level functions use the default environment.
            key = (plan["q"], plan["d"], plan["c"], "package " + plan["form"])
            if key not in refs:
                fc = contexts[plan["c"]]
                refs[key] = (
                    outcome_sync(
                        lambda: jsonpath.finditer(
                            texts[plan["q"]], source(plan["d"], plan["form"]),
                            filter_context=fc,
                        )
                    ),
                    values_sync(
                        lambda: jsonpath.findall(
                            texts[plan["q"]], source(plan["d"], plan["form"]),
                            filter_context=fc,
                        )
                    ),
                )

    loop = SimLoop(ch, ctx)
    loop.random_order = not ch.chance(1, 3, "fifo")
    slow = ch.pick((0.0, 0.01, 1.0, 60.0), "getter delay")
    density = ch.pick((2, 1, 4, 8), "pause density")
    state: Dict[str, Dict[str, int]] = {
        p["name"]: {"pauses": 0, "inside": 0, "visits": 0} for p in plans
    }
    fired: Dict[str, str] = {}
    paused_total = [0]
    entered: Dict[int, int] = {}

    def me() -> Any:
        task = asyncio.current_task(loop)
        return None if task is None else by_name.get(task.get_name())

    async def pause() -> None:
        plan = me()
        if plan is None:
            return
        st = state[plan["name"]]
        st["pauses"] += 1
        paused_total[0] += 1
        if plan["fault"] == "cancel" and st["pauses"] == plan["at"]:
            fired[plan["name"]] = "cancel"
            ctx.fault("cancel a task inside a getter")
            ctx.log(plan["name"], "will be cancelled")
            tasks[plan["name"]].cancel()
        what = ch.draw(density + 2, "pause")
        if what == 0:
            return
        if slow and what == 1:
            await asyncio.sleep(slow * ch.between(1, 4, "delay"))
        else:
            await asyncio.sleep(0)

    def hook(obj: Any, key: Any) -> None:
        plan = me()
        if plan is None:
            return
        st = state[plan["name"]]
        st["visits"] += 1
        if plan["fault"] == "transient" and st["visits"] == plan["at"]:
            fired[plan["name"]] = "transient"
            ctx.fault("transient getter failure")
            ctx.log(plan["name"], "getter fails")
            raise SimIOError("transient storage failure")

    getter.pause = pause
    getter.hook = hook

    results: Dict[str, Any] = {}

    async def step(plan: Dict[str, Any], items: List[str], agen: Any) -> str:
        """Iterate; 'done', 'closed' or 'abandoned'."""
        want = refs_for(plan)[0]
        async for m in agen:
            text = match_canon(m)
            i = len(items)
            items.append(text)
            ctx.log(plan["name"], "item", i, text)
            # Invariant while the run proceeds.
            # How much comes out before an error depends on how lazy a selector
            # is, which is not what this is about.
            if i >= len(want[2]) and want[0] == "err":
                continue
            if i >= len(want[2]) or want[2][i] != text:
                raise Violation(
                    "async-match-differs",
                    explain(plan)
                    + f"\nmatch {i}: async {text}\n  sync {want[2][i : i + 1]}",
                )
            if plan["fault"] in ("close", "abandon") and i + 1 >= plan["at"] // 3 + 1:
                fired[plan["name"]] = plan["fault"]
                return plan["fault"]
            if ch.chance(1, 4, "consumer waits"):
                await asyncio.sleep(slow if ch.draw(2, "consumer delay") else 0)
        return "done"

    def refs_for(plan: Dict[str, Any]) -> Any:
        form = plan["form"]
        if plan["api"].startswith("package"):
            form = "package " + form
        return refs[(plan["q"], plan["d"], plan["c"], form)]

    def explain(plan: Dict[str, Any]) -> str:
        return (
            f"query {texts[plan['q']]!r}\ndocument ({plan['form']}) "
            f"{short(canon(plain_docs[plan['d']]), 600)}\n"
            f"filter context {short(canon(contexts[plan['c']]), 300)}\n"
            f"entry point {plan['api']}, getter mode {mode}, environment {env_kw}, "
            f"failing sites {len(getter.sites)}, task {plan['name']} "
            f"fault {fired.get(plan['name'])}"
        )

    async def work(plan: Dict[str, Any]) -> Any:
        text = texts[plan["q"]]
        doc = source(plan["d"], plan["form"])
        fc = contexts[plan["c"]]
        path = compiled[plan["q"]]
        api = plan["api"]
        target: Any
        args: Tuple[Any, ...]
        if api.startswith("compiled") and not isinstance(path, str):
            target, args = path, (doc,)
            entered[plan["q"]] = entered.get(plan["q"], 0) + 1
            if entered[plan["q"]] > 1:
                ctx.probe("two tasks inside one compiled query")
        elif api.startswith("package"):
            target, args = jsonpath, (text, doc)
        else:
            target, args = env, (text, doc)
        try:
            if api.endswith("all"):
                values = await target.findall_async(*args, filter_context=fc)
                return ("ok", "", [canon(v) for v in values], "all")
            items: List[str] = []
            try:
                agen = await target.finditer_async(*args, filter_context=fc)
                how = await step(plan, items, agen)
                if how == "close":
                    ctx.fault("close an async iterator early")
                    ctx.probe("closed early")
                    aclose = getattr(agen, "aclose", None)
                    if aclose is not None:
                        await aclose()
                    return ("closed", "", items, "iter")
                if how == "abandon":
                    ctx.fault("abandon an async iterator")
                    ctx.probe("abandoned")
                    del agen
                    return ("closed", "", items, "iter")
                return ("ok", "", items, "iter")
            except Violation:
                raise
            except Exception as err:  # noqa: BLE001
                return ("err", kind_of(err), items, "iter")
        except Violation:
            raise
        except Exception as err:  # noqa: BLE001
            return ("err", kind_of(err), [], "all")
        finally:
            if target is path:
                entered[plan["q"]] -= 1

    async def guarded(plan: Dict[str, Any]) -> None:
        name = plan["name"]
        try:
            if plan["fault"] == "timeout":
                limit = 0.001 + slow * plan["at"] / 4
                try:
                    results[name] = await asyncio.wait_for(work(plan), limit)
                except asyncio.TimeoutError:
                    ctx.fault("timeout")
                    ctx.probe("timed out")
                    fired[name] = "timeout"
                    results[name] = ("timeout", "", [], "")
            else:
                results[name] = await work(plan)
        except asyncio.CancelledError:
            results[name] = ("cancelled", "", [], "")
            if fired.get(name) == "cancel":
                ctx.probe("cancelled inside a getter")
        ctx.log(name, "ends", results[name][0], results[name][1], loop.time())

    by_name = {p["name"]: p for p in plans}
    tasks: Dict[str, Any] = {}

    async def main() -> None:
        for p in plans:
            tasks[p["name"]] = loop.create_task(guarded(p), name=p["name"])
        pending = list(tasks.values())
        for t in pending:
            # A task cancelled in its last step is cancelled after its result
            # has been recorded.
            await asyncio.wait([t])
            if not t.cancelled() and t.exception() is not None:
                raise t.exception()

    ctx.case = "; ".join(texts)[:400]
    for p in plans:
        ctx.log(p["name"], texts[p["q"]], p["d"], p["c"], p["form"], p["api"], p["fault"])
    loop.run_until_complete(main())

    # -- history

    for plan in plans:
        name = plan["name"]
        got = results.get(name)
        if got is None:
            raise Violation("no-progress", f"task {name} never finished\n" + explain(plan))
        judge(ctx, plan, got, refs_for(plan), fired.get(name), explain)

    # -- once faults have stopped: everything works again

    getter.hook = None
    by_name.clear()

    async def again() -> None:
        for qi in good:
            for plan in plans:
                if plan["q"] != qi:
                    continue
                if plan["api"].startswith("package"):
                    continue
                calm = dict(plan, fault=None, name="again", api="compiled iter")
                state["again"] = {"pauses": 0, "inside": 0, "visits": 0}
                got = await work(calm)
                judge(ctx, calm, got, refs_for(calm), None, explain)
                break

    loop2 = SimLoop(ch, ctx)
    loop2.random_order = False
    loop2.run_until_complete(again())

    if paused_total[0] and any(r[0][2] or r[0][0] == "err" for r in refs.values()):
        ctx.nontrivial = True
    ctx.count("async evaluations compared", len(plans) + len(good))
    if any("*" in t for t in texts) and any('"' in canon(d) for d in plain_docs):
        ctx.probe("wild on string")
    if "text" in forms:
        ctx.probe("text document")
    if "file" in forms:
        ctx.probe("file document")


def _raw(value: Any) -> Any:
    from ..canon import plain

    return plain(value)


def judge(
    ctx: Ctx, plan: Dict[str, Any], got: Any, ref: Any, fired: Any, explain: Any
) -> None:
    status, kind, items, shape = got
    want_iter, want_all = ref
    where = explain(plan)
    if status in ("cancelled", "timeout", "closed"):
        if status == "cancelled" and fired != "cancel":
            raise Violation("spurious-cancellation", where)
        n = len(want_iter[2]) if want_iter[0] == "err" else len(items)
        if status == "closed" and items[:n] != want_iter[2][: len(items)]:
            raise Violation("async-match-differs", where)
        return
    if fired == "transient":
        # The failure must surface, and nothing wrong may be yielded before it.
        if status != "err" or kind != "dst.data.SimIOError":
            raise Violation(
                "failure-swallowed",
                where + f"\na getter failed, but the call ended {status} {kind}",
            )
        return
    want = want_all if shape == "all" else want_iter
    if status != want[0]:
        raise Violation(
            "async-error-differs",
            where
            + f"\nasync: {status} {kind} {short(items)}"
            + f"\nsync: {want[0]} {want[1]} {short(want[2])}",
        )
    if kind != want[1]:
        raise Violation(
            "async-error-kind-differs", where + f"\nasync raised {kind}, sync {want[1]}"
        )
    if status == "ok" and items != want[2]:
        raise Violation(
            "async-result-differs",
            where + f"\nasync: {short(items, 900)}\nsync: {short(want[2], 900)}",
        )
