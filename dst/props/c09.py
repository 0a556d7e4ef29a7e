"""C09: evaluation is pure.

Actors (one script, threads, or tasks) share compiled queries, environments,
documents and filter contexts, and operate on them in a seeded interleaving:
lazy iterators advanced out of step, evaluations abandoned, interrupted or failed
half-way, documents edited or replaced between evaluations.  What every
evaluation must give is computed beforehand, each in a forked process that does
nothing else, without filter caching.
"""

from __future__ import annotations

import asyncio
import json
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

import jsonpath

from .. import boot
from ..aioloop import SimLoop
from ..canon import canon
from ..canon import match_canon
from ..core import Choices
from ..core import Ctx
from ..core import Violation
from ..core import short
from ..data import Getter
from ..data import FunctionsEnv
from ..data import SimEnv
from ..data import SimIOError
from ..data import Watch
from ..data import kind_of
from ..data import proxy
from ..data import scribble
from ..data import trapped
from ..pristine import drive
from ..pristine import pristine
from ..threads import SimInterrupt
from ..threads import ThreadSim
from .. import gen

RUNS = {"quick": 30000, "thorough": 200000}

META = {
    "rule": (
        "one evaluation = one simulated run: a history of evaluations by 1-4 actors "
        "sharing 1-3 compiled queries, documents and contexts; non-trivial = at least "
        "two evaluations with a match or an error were compared and they overlapped or "
        "followed one another on one compiled query; distinct by the hash of the event "
        "log"
    ),
    "interleaving_measure": (
        "hash of the sequence of scheduling decisions: (thread, lines executed) at every "
        "hand-over, (iterator, position) at every advance, ready-queue choice in tasks"
    ),
    "real": [
        "jsonpath: lexer, parser, selectors, filters, caching, paths, environments",
        "CPython threads (one runs at a time), asyncio tasks",
    ],
    "stub": [
        "thread scheduler (seeded hand-over between executed lines or byte codes)",
        "event loop (virtual time, seeded ready queue)",
        "document storage: containers that record attempts to modify them, item getters "
        "that suspend or fail",
    ],
    "assumptions": [
        "hand-over happens between lines or byte codes of jsonpath, with the GIL",
        "one lazy iterator is advanced by one actor",
        "documents are edited only while no evaluation of them is in progress",
    ],
    "probes": [
        "threads",
        "tasks",
        "iterators",
        "history",
        "two live iterators of one compiled query",
        "caching environment",
        "non-caching environment",
        "document edited in place",
        "document edited between evaluations",
        "context edited between evaluations",
        "temporary document",
        "recompiled",
        "interrupted evaluation",
        "failed evaluation",
        "iterator abandoned",
        "result has matches",
        "result is an error",
        "cacheable nodes",
        "many uses",
        "many queries",
        "environment of another kind",
        "compound",
        "trapped document",
        "proxy document",
        "text document",
        "result scribbled on",
        "functions of our own",
        "focus",
        "one query contended",
        "containers occurring more than once",
    ],
}


class Swapped(jsonpath.JSONPathEnvironment):
    """The same texts mean something else here."""

    union_token = "&"
    intersection_token = "|"
    key_token = "_"
    filter_context_token = "#"


class Narrow(FunctionsEnv):
    max_int_index = 1
    min_int_index = -1

    def setup_function_extensions(self) -> None:
        super().setup_function_extensions()
        for a, b in (("length", "count"), ("match", "search"), ("value", "typeof"),
                     ("digests", "untyped"), ("twin", "nodes")):
            fns = self.function_extensions
            fns[a], fns[b] = fns[b], fns[a]

    def compare(self, left: object, operator: str, right: object) -> bool:
        return not super().compare(left, operator, right)


class Strange(jsonpath.JSONPathEnvironment):
    def getitem(self, obj: Any, key: Any) -> Any:
        return [super().getitem(obj, key)]


FOREIGN = (Swapped, Narrow, Strange, jsonpath.JSONPathEnvironment)


def foreign(kind: int, text: str, doc: Any, fc: Any) -> None:
    """Evaluate a query in an environment of another kind."""
    cls = FOREIGN[kind % 4]
    env = cls(filter_caching=kind & 4 == 0, well_typed=cls is Swapped)
    try:
        found = env.findall(text, doc, filter_context=fc)
        for m in env.finditer(text, doc, filter_context=fc):
            str(m.path)
        del found
    except (SimInterrupt, SimIOError):
        raise
    except Exception as err:  # noqa: BLE001
        if isinstance(err.__cause__ or err.__context__, (SimInterrupt, SimIOError)):
            raise SimIOError("foreign") from err


def morph(dst: Any, src: Any) -> None:
    """Give a container, in place, the content of another of the same type."""
    if isinstance(dst, dict):
        for k in [k for k in dst if k not in src]:
            dict.__delitem__(dst, k)
        order = list(src)
        if list(dst) != order:
            old = dict(dst)
            dict.clear(dst)
            for k in order:
                dict.__setitem__(dst, k, old.get(k))
        for k, v in src.items():
            if type(v) in (dict, list) and isinstance(dst[k], type(v)):
                morph(dst[k], v)
            else:
                dict.__setitem__(dst, k, json.loads(json.dumps(v)))
    else:
        for i, v in enumerate(src):
            if i >= len(dst):
                list.append(dst, json.loads(json.dumps(v)))
            elif type(v) in (dict, list) and isinstance(dst[i], type(v)):
                morph(dst[i], v)
            else:
                list.__setitem__(dst, i, json.loads(json.dumps(v)))
        while len(dst) > len(src):
            list.pop(dst)


def evaluate_all(env: Any, text: str, doc: Any, fc: Any) -> Dict[str, Any]:
    """Every reference result for one (query, document, context)."""
    out: Dict[str, Any] = {}
    try:
        path = env.compile(text)
    except Exception as err:  # noqa: BLE001
        return {"compile": kind_of(err)}
    out["compile"] = ""
    out["str"] = str(path)
    items: List[str] = []
    try:
        for m in path.finditer(doc, filter_context=fc):
            items.append(match_canon(m))
        out["iter"] = ("ok", "", items)
    except Exception as err:  # noqa: BLE001
        out["iter"] = ("err", kind_of(err), items)
    try:
        out["all"] = ("ok", "", [canon(v) for v in path.findall(doc, filter_context=fc)])
    except Exception as err:  # noqa: BLE001
        out["all"] = ("err", kind_of(err), [])
    try:
        m = path.match(doc, filter_context=fc)
        out["match"] = ("ok", "", [] if m is None else [match_canon(m)])
    except Exception as err:  # noqa: BLE001
        out["match"] = ("err", kind_of(err), [])
    items = []

    async def each() -> None:
        async for m in await path.finditer_async(doc, filter_context=fc):
            items.append(match_canon(m))

    try:
        drive(each())
        out["aiter"] = ("ok", "", items)
    except Exception as err:  # noqa: BLE001
        out["aiter"] = ("err", kind_of(err), items)
    try:
        out["aall"] = (
            "ok", "",
            [canon(v) for v in drive(path.findall_async(doc, filter_context=fc))],
        )
    except Exception as err:  # noqa: BLE001
        out["aall"] = ("err", kind_of(err), [])
    return out


class Live:
    def __init__(self, it: Any, ref: Any, action: Dict[str, Any]) -> None:
        self.it = it
        self.ref = ref
        self.pos = 0
        self.action = action
        self.name = ""


def printed(path: Any) -> Tuple[str, Any]:
    """The text and the hash of a compiled query, where it has one."""
    try:
        return str(path), hash(path)
    except TypeError:
        return str(path), None


def run(ch: Choices, ctx: Ctx) -> None:  # noqa: PLR0912, PLR0915
    mode = ch.pick(("iterators", "threads", "tasks", "history", "history"), "mode")
    ctx.probe(mode)
    docgen = gen.DocGen(ch, widest=12)
    # Contents; documents are containers holding one of them.
    history = mode == "history"
    if history:
        # A long history over small, easily confused documents.
        mode = "iterators"
        docgen.max_depth = ch.pick((2, 1, 2, 3), "depth")
        docgen.width = ch.pick((3, 2, 4), "width")
        if ch.chance(3, 4, "confusing"):
            docgen.confuse()
    custom = ch.chance(1, 3, "functions of our own")
    if custom:
        ctx.probe("functions of our own")
    ext = not ch.chance(1, 6, "standard only")
    focus: Optional[gen.Focus] = None
    if (history and ch.chance(3, 5, "focus")) or (
        mode != "iterators" and ch.chance(2, 3, "focus")
    ):
        ctx.probe("focus")
        focus = gen.Focus(ch, custom, ext)
    contents = [focus.document() if focus else docgen.document()]
    for _ in range(ch.between(3, 6, "documents") if history else
                   ch.between(1 if focus else 0, 2, "documents")):
        contents.append(
            focus.document() if focus
            else gen.sibling(ch, contents[-1 if history else 0], docgen, history)
            if ch.chance(7 if history else 3, 8 if history else 4, "similar")
            else docgen.document()
        )
    ctx_contents: List[Any] = [None]
    if not ch.chance(1, 3, "no context"):
        ctx_contents = [focus.context() if focus else gen.context(ch, docgen)]
        if ch.chance(2, 3, "two contexts"):
            ctx_contents.append(
                None if ch.chance(1, 3, "no context")
                else focus.context() if focus
                else gen.sibling(ch, ctx_contents[0], docgen)
            )
    well_typed = not ch.chance(1, 5, "no type checks")
    qgen = gen.QueryGen(
        ch,
        contents,
        [c for c in ctx_contents if c is not None],
        ext=ext,
        rooty=ch.pick((5, 3, 9), "rooty"),
        well_typed=well_typed,
        custom=custom,
    )
    qgen.filters += 2
    if history:
        qgen.filters += 6
        qgen.max_segments = ch.pick((1, 2), "segments")
        qgen.nesting = ch.draw(2, "filter nesting")
    n_queries = 3
    if history and not focus or focus and not history:
        n_queries = 2
    texts = [
        focus.query() if focus
        else qgen.pointed() if history and ch.chance(3, 4, "pointed") else qgen.query(15)
        for _ in range(ch.between(1, n_queries, "queries"))
    ]
    if ch.chance(1, 2 if history else 6, "kin"):
        texts.append(gen.kin(ch, texts[0]))
    if ch.chance(1, 10, "malformed"):
        texts.append(qgen.mutated(texts[0]))

    style = ch.pick(("trapped", "plain", "proxy"), "document style")
    ctx.probe(style + " document")
    watch = Watch()
    getter = Getter()
    faulty = ch.chance(1, 3, "faults")

    shared = ch.chance(1, 5, "shared containers")
    if shared:
        ctx.probe("containers occurring more than once")

    def dress(content: Any, alone: bool = False) -> Any:
        if shared and not alone:
            copy = gen.share(ch, content)
        else:
            copy = json.loads(json.dumps(content))
        if style == "trapped":
            return trapped(copy, watch)
        if style == "proxy":
            return proxy(copy, getter)
        return copy

    kw = {"well_typed": well_typed}
    envs = {
        True: SimEnv(getter=getter, filter_caching=True, **kw),
        False: SimEnv(getter=getter, filter_caching=False, **kw),
    }

    # -- plan

    n_actors = {"iterators": 1, "threads": ch.between(2, 4, "threads"),
                "tasks": ch.between(2, 4, "tasks")}[mode]
    deep = ctx.tier == "thorough"
    scripts: List[List[Dict[str, Any]]] = []
    contended = n_actors > 1 and ch.chance(2, 3, "contended")
    if contended:
        ctx.probe("one query contended")
    for _ in range(n_actors):
        n = ch.between(3, 40 if deep else 20, "actions") if mode == "iterators" else (
            ch.between(1, 8 if deep else 4, "actions")
        )
        script: List[Dict[str, Any]] = []
        for _ in range(n):
            a: Dict[str, Any] = {
                "do": ch.weighted(
                    ((6, "start"), (8 if mode == "iterators" else 4, "advance"),
                     (8 if contended else 4, "all"), (1, "match"), (1, "query"),
                     (3 if contended else 1, "recompile"),
                     (1, "close"),
                     ((8 if history else 2) if mode == "iterators" else 0, "edit"),
                     (10 if history else 2, "temporary"), (1, "text"), (2, "drain"),
                     (1, "foreign")),
                    "action",
                ),
                "q": ch.draw(len(texts), "query"),
                "d": ch.draw(len(contents), "document"),
                "c": ch.draw(len(ctx_contents), "context"),
                "caching": not ch.chance(1, 4, "caching off"),
                "level": ch.pick(("compiled", "compiled", "environment", "package"),
                                 "level"),
                "n": ch.between(1, 4, "count"),
                "pick": ch.draw(12, "which"),
                "fault": None,
            }
            if history and script and script[-1]["do"] == "edit" and ch.chance(
                1, 2, "what was edited"
            ):
                a["d"] = script[-1]["d"]
            if contended:
                a["q"], a["caching"] = 0, script[0]["caching"] if script else (
                    scripts[0][0]["caching"] if scripts else a["caching"]
                )
                if a["level"] != "compiled" and ch.chance(2, 3, "compiled"):
                    a["level"] = "compiled"
            if a["level"] == "package" and (
                not well_typed or custom or mode == "tasks"
            ):
                a["level"] = "environment"
            if faulty and ch.chance(1, 3, "fault here"):
                a["fault"] = ch.pick(
                    ("getter", "interrupt") if mode != "tasks" else ("getter", "cancel"),
                    "fault",
                )
                a["at"] = ch.pick((1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233), "at")
                a["at"] += ch.draw(20, "at more") if a["fault"] == "interrupt" else 0
            script.append(a)
        scripts.append(script)
    if mode == "iterators" and ch.chance(1, 40, "many uses"):
        scripts[0].append(dict(scripts[0][0], do="many", level="compiled", fault=None))
    if mode == "iterators" and not faulty and ch.chance(1, 60, "many queries"):
        a = dict(scripts[0][0], do="flood", fault=None)
        scripts[0].insert(ch.draw(len(scripts[0]) + 1, "flood at"), a)

    # Edits by the caller once the evaluations above are over, between further ones.
    epilogue: List[Tuple[str, int, int]] = []
    if ch.chance(1, 2, "epilogue"):
        for _ in range(ch.between(1, 3, "edits")):
            if len(contents) > 1 and style != "proxy" and not shared and not (
                len(ctx_contents) > 1 and ch.chance(1, 3, "edit context")
            ):
                epilogue.append(
                    ("document", ch.draw(len(contents), "document"),
                     ch.draw(len(contents), "content"))
                )
            elif len(ctx_contents) > 1:
                n = len(ctx_contents)
                epilogue.append(("context", ch.draw(n, "context"), ch.draw(n, "content")))

    # -- references, from processes that do nothing else

    keys = sorted({(a["q"], a["d"], a["c"]) for script in scripts for a in script})
    if epilogue or any(a["do"] in ("edit", "many") for s in scripts for a in s):
        keys = sorted(
            {(q, k, c) for q, _, c in keys for k in range(len(contents))}
        )
    if any(what == "context" for what, _, _ in epilogue):
        keys = sorted(
            {(q, k, c) for q, k, _ in keys for c in range(len(ctx_contents))}
        )
    def evaluated(
        order: List[Tuple[int, int, int]], caching: bool
    ) -> Dict[Tuple[int, int, int], Any]:
        env = FunctionsEnv(filter_caching=caching, **kw)
        return {
            (q, k, c): evaluate_all(
                env, texts[q], dress(contents[k], True), ctx_contents[c]
            )
            for q, k, c in order
        }

    # One child evaluates everything with caching off, another everything backwards
    # with caching on.  Where both agree on all of it, no evaluation in either had
    # anything to say about another one.  Where they do not, and now and then anyway,
    # a child for each evaluation tells which of the two was wrong.
    refs = pristine(lambda: evaluated(keys, False))
    turned = pristine(lambda: evaluated(keys[::-1], True))
    if refs != turned or ch.chance(1, 24, "each on its own"):
        ctx.probe("each reference from its own process")
        for q, k, c in keys:
            alone = pristine(lambda q=q, k=k, c=c: evaluated([(q, k, c)], False))  # type: ignore
            for what, name, got in (
                ("evaluations", "caching off, after others", refs),
                ("caching", "caching on, after others", turned),
            ):
                if got[q, k, c] != alone[q, k, c]:
                    if what == "caching":
                        again = pristine(
                            lambda q=q, k=k, c=c: evaluated([(q, k, c)], True)  # type: ignore
                        )
                        if again[q, k, c] == alone[q, k, c]:
                            what = "evaluations"
                    raise Violation(
                        "caching-changes-the-result" if what == "caching"
                        else "earlier-evaluations-change-the-result",
                        f"query {texts[q]!r}\n"
                        f"document {short(canon(contents[k]), 600)}\n"
                        f"filter context {short(canon(ctx_contents[c]), 300)}\n"
                        f"caching off, alone: {short(str(alone[q, k, c]), 900)}\n"
                        f"{name}: {short(str(got[q, k, c]), 900)}",
                    )
    if refs != turned:
        raise Violation(
            "evaluations-differ-between-processes",
            f"{short(str(refs), 900)}\n{short(str(turned), 900)}",
        )
    for q, k, c in keys:
        r = refs[q, k, c].get("iter", ("err", refs[q, k, c]["compile"], []))
        ctx.log("ref", q, k, c, texts[q], r[0], r[1], "|".join(r[2]))

    # -- shared state

    docs = [dress(c) for c in contents]
    current = list(range(len(contents)))  # what each document holds
    current_c = list(range(len(ctx_contents)))
    contexts = [None if c is None else trapped(json.loads(json.dumps(c)), watch)
                for c in ctx_contents]
    compiled: Dict[Tuple[int, bool], Any] = {}
    before: Dict[Tuple[int, bool], Tuple[str, int]] = {}
    for q, text in enumerate(texts):
        for caching in (True, False):
            try:
                p = envs[caching].compile(text)
            except Exception as err:  # noqa: BLE001
                compiled[q, caching] = kind_of(err)
                continue
            compiled[q, caching] = p
            before[q, caching] = printed(p)
    if any("|" in t or " & " in t for t in texts):
        ctx.probe("compound")
    if any("$" in t[1:] or "_" in t for t in texts):
        ctx.probe("cacheable nodes")

    ctx.case = f"{mode}: " + "; ".join(texts)[:300]
    compared = [0, 0]

    def where(a: Optional[Dict[str, Any]]) -> str:
        if a is None:
            return f"queries {texts!r}"
        k = a.get("content", a["d"])
        return (
            f"query {texts[a['q']]!r}\ndocument {short(canon(contents[k]), 600)}\n"
            f"filter context {short(canon(ctx_contents[current_c[a['c']]]), 300)}\n"
            f"action {a['do']} ({a['level']} level, caching {a['caching']}, {style} "
            f"documents, mode {mode})"
        )

    def note(r: Any) -> None:
        compared[0] += 1
        if r[0] == "err":
            ctx.probe("result is an error")
            compared[1] += 1
        elif r[2]:
            ctx.probe("result has matches")
            compared[1] += 1

    def same(a: Dict[str, Any], got: Any, want: Any, what: str) -> None:
        ctx.count("evaluations compared")
        note(want)
        if got[:2] != want[:2] or (got[2] != want[2] and got[0] == "ok"):
            raise Violation(
                "result-differs",
                where(a) + f"\n{what} gives {short(str(got), 900)}\n"
                f"alone in a fresh process {short(str(want), 900)}",
            )

    def ref_of(a: Dict[str, Any], content: int, kind: str) -> Any:
        ref = refs[a["q"], content, current_c[a["c"]]]
        return ("err", ref["compile"], []) if ref["compile"] else ref[kind]

    def target(a: Dict[str, Any]) -> Tuple[Any, Tuple[Any, ...]]:
        ctx.probe("caching environment" if a["caching"] else "non-caching environment")
        if a["level"] == "compiled":
            p = compiled[a["q"], a["caching"]]
            if not isinstance(p, str):
                return p, ()
        if a["level"] == "package":
            return jsonpath, (texts[a["q"]],)
        return envs[a["caching"]], (texts[a["q"]],)

    def alien(err: BaseException) -> bool:
        """An injected failure came out."""
        if isinstance(err, (SimInterrupt, SimIOError)):
            return True
        cause = err.__cause__ or err.__context__
        return cause is not None and isinstance(cause, (SimInterrupt, SimIOError))

    def content_of(a: Dict[str, Any]) -> int:
        return current[a["d"]]

    def advance(live: Live, n: int, a: Dict[str, Any]) -> bool:
        """Advance; False when the iterator has ended."""
        want = live.ref
        for _ in range(n):
            try:
                m = next(live.it)
            except StopIteration:
                same(live.action, ("ok", "", want[2][: live.pos]), want, "iteration")
                return False
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                same(live.action, ("err", kind_of(err), []), want, "iteration")
                return False
            text = match_canon(m)
            if live.pos >= len(want[2]) or want[2][live.pos] != text:
                raise Violation(
                    "result-differs",
                    where(live.action) + f"\nmatch {live.pos} is {text}\nalone in a "
                    f"fresh process {short(str(want), 900)}",
                )
            ctx.sched("i", live.name, live.pos)
            live.pos += 1
        return True

    def act(a: Dict[str, Any], lives: List[Live], name: str) -> None:  # noqa: PLR0912
        do = a["do"]
        fc = contexts[a["c"]]
        a = dict(a)
        a["content"] = content_of(a)
        ctx.log(name, do, a["q"], a["d"], a["c"], a["caching"], a["level"])
        if do == "start":
            tgt, args = target(a)
            want = ref_of(a, a["content"], "iter")
            try:
                it = iter(tgt.finditer(*args, docs[a["d"]], filter_context=fc))
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                same(a, ("err", kind_of(err), []), want, "finditer")
                return
            live = Live(it, want, a)
            live.name = f"{name}.{len(lives)}"
            if any(x.action["q"] == a["q"] for x in lives):
                ctx.probe("two live iterators of one compiled query")
            lives.append(live)
            return
        if do in ("advance", "drain", "close") and lives:
            live = lives[a["pick"] % len(lives)]
            if do == "close":
                ctx.probe("iterator abandoned")
                ctx.fault("iterator abandoned")
                lives.remove(live)
                if a["n"] > 2 and hasattr(live.it, "close"):
                    live.it.close()
                return
            try:
                more = advance(live, 10**6 if do == "drain" else a["n"], a)
            except BaseException as err:
                if alien(err):
                    lives.remove(live)
                raise
            if not more:
                lives.remove(live)
            return
        if do == "recompile":
            ctx.probe("recompiled")
            old = compiled[a["q"], a["caching"]]
            try:
                new = envs[a["caching"]].compile(texts[a["q"]])
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                if kind_of(err) != old:
                    raise Violation(
                        "recompiling-differs",
                        where(a) + f"\nrecompiling raised {kind_of(err)}, before: {old}",
                    ) from err
                return
            if isinstance(old, str):
                raise Violation(
                    "recompiling-differs",
                    where(a) + f"\ncompiling raised {old} before, now it works",
                )
            if not (new == old and old == new and not new != old):
                raise Violation("recompiled-not-equal", where(a) + f"\n{new}\n{old}")
            if printed(new) != before[a["q"], a["caching"]]:
                raise Violation("recompiled-not-equal", where(a) + "\nhash or text")
            if a["n"] > 2:
                compiled[a["q"], a["caching"]] = new
                before[a["q"], a["caching"]] = printed(new)
            return
        if do == "edit":
            k = a["pick"] % len(contents)
            d = a["d"]
            if any(x.action["d"] == d for x in lives) or style == "proxy" or shared:
                return
            if type(contents[k]) is not type(contents[current[d]]) or not isinstance(
                contents[k], (dict, list)
            ):
                return
            morph(docs[d], contents[k])
            if canon(docs[d]) != canon(contents[k]):
                raise AssertionError("morph")
            if k != current[d]:
                ctx.probe("document edited in place")
            current[d] = k
            return
        if do == "foreign":
            ctx.probe("environment of another kind")
            kind = a["pick"]
            foreign(kind, texts[a["q"]], docs[a["d"]], fc)
            return
        if do == "flood":
            ctx.probe("many queries")
            env = envs[a["caching"]]
            for i in range(700):
                p = env.compile(f"$[?@.a == $.n{i}]..n{i}")
                if i % 100 == 0:
                    p.findall(docs[a["d"]], filter_context=fc)
            return
        if do == "many":
            ctx.probe("many uses")
            tgt, args = target(a)
            if args:
                return
            for i in range(120):
                b = dict(a, d=(a["d"] + i) % len(docs))
                b["content"] = content_of(b)
                want = ref_of(b, b["content"], "all")
                same(b, values(tgt.findall, docs[b["d"]], fc), want, f"use {i}")
            return
        tgt, args = target(a)
        doc = docs[a["d"]]
        content = a["content"]
        if do == "temporary":
            ctx.probe("temporary document")
            doc = dress(contents[content])
        elif do == "text":
            if not isinstance(contents[content], (dict, list)):
                return
            ctx.probe("text document")
            doc = json.dumps(contents[content])
        if do == "match":
            want = ref_of(a, content, "match")
            try:
                m = tgt.match(*args, doc, filter_context=fc)
                got: Any = ("ok", "", [] if m is None else [match_canon(m)])
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                got = ("err", kind_of(err), [])
            same(a, got, want, "match")
        elif do == "query":
            want = ref_of(a, content, "iter")
            items: List[str] = []
            try:
                for m in tgt.query(*args, doc, filter_context=fc):
                    items.append(match_canon(m))
                got = ("ok", "", items)
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                got = ("err", kind_of(err), items)
            same(a, got, want, "query")
        else:
            want = ref_of(a, content, "all")
            same(a, values(lambda d, f: tgt.findall(*args, d, filter_context=f), doc, fc,
                           positional=True, own=doc is not docs[a["d"]]),
                 want, "findall")

    def disturb(got: Any, own: bool) -> None:
        """Results belong to the caller, as do the values of a document of its own."""
        if own:
            ctx.probe("result scribbled on")
            for v in got:
                scribble(v)
        got.append("scribbled")

    def values(
        call: Any, doc: Any, fc: Any, positional: bool = False, own: bool = False
    ) -> Any:
        try:
            got = call(doc, fc) if positional else call(doc, filter_context=fc)
            texts_ = [canon(v) for v in got]
            disturb(got, own)
            return ("ok", "", texts_)
        except Exception as err:  # noqa: BLE001
            if alien(err):
                raise
            return ("err", kind_of(err), [])

    # -- faults in item getters: per actor countdowns

    countdown: Dict[str, int] = {}

    def fire(name: str) -> None:
        n = countdown.get(name)
        if n is None:
            return
        if n <= 1:
            del countdown[name]
            ctx.fault("item getter failure")
            ctx.log(name, "getter fails")
            raise SimIOError("transient")
        countdown[name] = n - 1

    def guarded(a: Dict[str, Any], lives: List[Live], name: str, sim: Any) -> None:
        if a["fault"] == "getter":
            countdown[name] = (a["at"] % 13) + 1
        elif a["fault"] == "interrupt" and sim is not None:
            sim.arm_interrupt(a["at"])
        try:
            act(a, lives, name)
        except SimInterrupt:
            ctx.probe("interrupted evaluation")
        except SimIOError:
            ctx.probe("failed evaluation")
        except Violation:
            raise
        except Exception as err:  # noqa: BLE001
            if not alien(err):
                raise
            ctx.probe("failed evaluation")
        finally:
            countdown.pop(name, None)
            if sim is not None:
                sim.disarm_interrupt()

    # -- the simulation

    if mode == "iterators" and not faulty:
        lives: List[Live] = []
        for a in scripts[0]:
            act(a, lives, "m")
        for live in list(lives):
            advance(live, 10**6, live.action)
    elif mode in ("iterators", "threads"):
        sim = ThreadSim(
            ch,
            ctx,
            boot.package_root(),
            opcodes=ch.chance(1, 5, "byte codes"),
            focus=ch.pick((None, None, "filter.py", "selectors.py", "path.py", "lex.py",
                           "parse.py", "env.py"), "focus"),
            race=ch.chance(1, 3, "race"),
        )

        def body(script: List[Dict[str, Any]], name: str) -> None:
            mine: List[Live] = []
            for a in script:
                guarded(a, mine, name, sim)
            for live in list(mine):
                advance(live, 10**6, live.action)

        def hook(obj: Any, key: Any) -> None:
            t = sim.current()
            if t is not None:
                fire(t.name)

        getter.hook = hook
        for i, script in enumerate(scripts):
            sim.spawn(f"t{i}", lambda s=script, n=f"t{i}": body(s, n))
        sim.run()
        getter.hook = None
        for t in sim.threads:
            if t.error is not None:
                raise t.error
        if sim.switches > len(sim.threads):
            ctx.count("runs with preemption")
    else:
        tasks_mode(
            ch, ctx, scripts, contents, contexts, docs, envs, texts, compiled, refs,
            getter, countdown, fire, where, note, target, ref_of, alien, dress,
        )

    # -- once everything is quiet: nothing has changed, everything still works

    getter.hook = None
    getter.pause = None
    if watch.events:
        raise Violation("modified", f"{watch.events[0]}\n{where(None)}")
    for d, doc in enumerate(docs):
        if canon(doc) != canon(contents[current[d]]):
            raise Violation(
                "document-modified",
                f"{where(None)}\nbefore {short(canon(contents[current[d]]), 600)}\n"
                f"after {short(canon(doc), 600)}",
            )
    for c, fc in enumerate(contexts):
        if fc is not None and canon(fc) != canon(ctx_contents[c]):
            raise Violation(
                "context-modified",
                f"{where(None)}\nbefore {short(canon(ctx_contents[c]), 400)}\n"
                f"after {short(canon(fc), 400)}",
            )
    for key, seen in before.items():
        p = compiled[key]
        if printed(p) != seen:
            raise Violation("compiled-query-modified", f"{seen} is now {printed(p)}")
        again = envs[key[1]].compile(texts[key[0]])
        if not again == p or printed(again) != seen:
            raise Violation("recompiled-not-equal", f"{texts[key[0]]}: {again} {p}")
    done = set()
    for script in scripts:
        for a in script:
            if (a["q"], a["d"], a["c"]) in done:
                continue
            done.add((a["q"], a["d"], a["c"]))
            for caching in (True, False):
                b = dict(a, do="all", level="compiled", caching=caching, fault=None)
                act(b, [], "after")
    for what, i, k in epilogue:
        source, mine, held = (
            (contents, docs, current) if what == "document"
            else (ctx_contents, contexts, current_c)
        )
        if type(source[k]) is not type(source[held[i]]) or not isinstance(
            source[k], (dict, list)
        ):
            continue
        if held[i] != k:
            ctx.probe(what + " edited between evaluations")
        morph(mine[i], source[k])
        held[i] = k
        ctx.log("edit", what, i, k)
        for q, d, c in sorted(done):
            if (d if what == "document" else c) != i:
                continue
            for caching in (True, False):
                b = {"q": q, "d": d, "c": c, "n": 1, "pick": 0, "level": "compiled",
                     "caching": caching, "fault": None, "do": "all",
                     "content": current[d]}
                act(b, [], "epilogue")
                path = compiled[q, caching]
                if isinstance(path, str):
                    continue
                try:
                    found = drive(
                        path.findall_async(docs[d], filter_context=contexts[c])
                    )
                    got = ("ok", "", [canon(v) for v in found])
                except Exception as err:  # noqa: BLE001
                    got = ("err", kind_of(err), [])
                same(b, got, ref_of(b, current[d], "aall"), "findall_async")
    if watch.events:
        raise Violation("modified", f"{watch.events[0]}\n{where(None)}")
    if compared[1] >= 2:
        ctx.nontrivial = True


def tasks_mode(  # noqa: PLR0913, PLR0915
    ch: Choices, ctx: Ctx, scripts: Any, contents: Any, contexts: Any, docs: Any,
    envs: Any, texts: Any, compiled: Any, refs: Any, getter: Getter, countdown: Any,
    fire: Any, where: Any, note: Any, target: Any, ref_of: Any, alien: Any, dress: Any,
) -> None:
    loop = SimLoop(ch, ctx)
    density = ch.pick((2, 1, 4), "pause density")

    def me() -> str:
        t = asyncio.current_task(loop)
        return "" if t is None else t.get_name()

    cancel_at: Dict[str, int] = {}
    tasks: Dict[str, Any] = {}

    async def pause() -> None:
        name = me()
        if name in cancel_at:
            cancel_at[name] -= 1
            if cancel_at[name] <= 0:
                del cancel_at[name]
                ctx.fault("cancel")
                tasks[name].cancel()
        what = ch.draw(density + 2, "pause")
        if what == 0:
            return
        await asyncio.sleep(0.25 * what if what > 1 else 0)

    getter.pause = pause
    getter.hook = lambda obj, key: fire(me())

    async def one(a: Dict[str, Any], name: str) -> None:
        tgt, args = target(a)
        fc = contexts[a["c"]]
        doc = docs[a["d"]]
        if a["do"] == "temporary":
            ctx.probe("temporary document")
            doc = dress(contents[a["d"]])
        elif a["do"] == "text" and isinstance(contents[a["d"]], (dict, list)):
            ctx.probe("text document")
            doc = json.dumps(contents[a["d"]])
        if a["do"] in ("all", "temporary", "text", "match"):
            want = ref_of(a, a["d"], "aall")
            try:
                found = await tgt.findall_async(*args, doc, filter_context=fc)
                got: Any = ("ok", "", [canon(v) for v in found])
                if doc is not docs[a["d"]]:
                    for v in found:
                        scribble(v)
                found.append("scribbled")
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                got = ("err", kind_of(err), [])
        else:
            want = ref_of(a, a["d"], "aiter")
            items: List[str] = []
            try:
                agen = await tgt.finditer_async(*args, doc, filter_context=fc)
                async for m in agen:
                    text = match_canon(m)
                    if len(items) >= len(want[2]) or want[2][len(items)] != text:
                        raise Violation(
                            "result-differs",
                            where(a) + f"\nmatch {len(items)} is {text}\nalone in a "
                            f"fresh process {short(str(want), 900)}",
                        )
                    items.append(text)
                    if a["do"] == "close" and len(items) >= a["n"]:
                        ctx.probe("iterator abandoned")
                        ctx.fault("iterator abandoned")
                        return
                    if ch.chance(1, 3, "consumer waits"):
                        await asyncio.sleep(0)
                got = ("ok", "", items)
            except Violation:
                raise
            except Exception as err:  # noqa: BLE001
                if alien(err):
                    raise
                got = ("err", kind_of(err), items)
        ctx.count("evaluations compared")
        note(want)
        if got[:2] != want[:2] or (got[2] != want[2] and got[0] == "ok"):
            raise Violation(
                "result-differs",
                where(a) + f"\ngives {short(str(got), 900)}\nalone in a fresh process "
                f"{short(str(want), 900)}",
            )

    async def body(script: Any, name: str) -> None:
        for a in script:
            ctx.log(name, a["do"], a["q"], a["d"], a["c"], a["caching"], a["level"])
            if a["do"] == "recompile":
                ctx.probe("recompiled")
            if a["fault"] == "getter":
                countdown[name] = (a["at"] % 13) + 1
            elif a["fault"] == "cancel":
                cancel_at[name] = (a["at"] % 13) + 1
            try:
                if a["do"] == "foreign":
                    ctx.probe("environment of another kind")
                    foreign(a["pick"], texts[a["q"]], docs[a["d"]], contexts[a["c"]])
                await one(a, name)
            except asyncio.CancelledError:
                ctx.probe("interrupted evaluation")
                t = asyncio.current_task(loop)
                if t is not None and hasattr(t, "uncancel"):
                    t.uncancel()
            except SimIOError:
                ctx.probe("failed evaluation")
            finally:
                countdown.pop(name, None)
                cancel_at.pop(name, None)
            if ch.chance(1, 3, "between actions"):
                await asyncio.sleep(0)

    async def main() -> None:
        for i, s in enumerate(scripts):
            tasks[f"t{i}"] = loop.create_task(body(s, f"t{i}"), name=f"t{i}")
        for t in tasks.values():
            await asyncio.wait([t])
            if t.cancelled():
                continue
            if t.exception() is not None:
                raise t.exception()

    loop.run_until_complete(main())
    getter.pause = None
    getter.hook = None
