"""C15: a patch is a faithful, reusable value.

One list of operations is turned into patches in every way there is (list, text,
simulated file, builder chain, the patch's own output), which must print and do the
same.  One patch object is applied again and again, by several threads, with
operations that fail half-way, storage that fails half-way and interrupts, while
results are scribbled on; it and the caller's list must not change, and every
application must do what a fresh patch does in a fresh process.
"""

from __future__ import annotations

import json
import re
from types import MappingProxyType
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple
from urllib.parse import quote

from jsonpath import JSONPatch
from jsonpath import JSONPathMatch
from jsonpath import JSONPointer
from jsonpath import patch as patch_module

from .. import boot
from ..canon import CYCLE
from ..canon import canon
from ..core import Choices
from ..core import Ctx
from ..core import Violation
from ..core import short
from ..data import PlainCopies
from ..data import SimIOError
from ..data import Watch
from ..data import kind_of
from ..data import scribble
from ..data import trapped
from ..pristine import pristine
from ..simio import Plan
from ..simio import readable
from ..threads import SimInterrupt
from ..threads import ThreadSim
from .. import gen

RUNS = {"quick": 32000, "thorough": 300000}

META = {
    "rule": (
        "one evaluation = one simulated run: one list of 1-7 operations, up to 8 forms "
        "of it, up to 3 documents, up to 25 applications of one patch object by 1-3 "
        "threads; non-trivial = at least one application changed a document and the "
        "patch was applied at least twice; distinct by the hash of the event log"
    ),
    "interleaving_measure": (
        "hash of the sequence of (thread, lines executed) at every hand-over and of "
        "(application, outcome) in order"
    ),
    "real": ["jsonpath.patch, jsonpath.pointer, jsonpath._data", "CPython threads"],
    "stub": [
        "thread scheduler (seeded hand-over between executed lines)",
        "raw layer of files",
        "containers that fail on demand or record attempts to modify them",
    ],
    "assumptions": [
        "a patch's output is reloaded with the same decoding options, unless a decoded "
        "path still has a backslash or per cent sign; then without decoding",
        "addap with a token that is not an array index may append or fail",
        "pointer tokens that Python's int() accepts but RFC 6901 doesn't are left out",
    ],
    "probes": [
        "add", "addne", "addap", "remove", "replace", "move", "copy", "test",
        "list form", "text form", "file form", "builder form", "reloaded form",
        "generator form", "pointer objects", "pointer from parts", "pointer from match",
        "pointer from joined", "pointer from parent", "pointer from relative", "shared value", "operation failed",
        "value modified by a later operation", "threads", "interrupted",
        "storage failed", "result scribbled on", "addne existing member",
        "addne new member", "addap unresolved index", "addap resolved index",
        "malformed operation", "root replaced", "patch extended", "text document",
        "escaped path", "uri path", "module apply",
        "another patch in between", "the other patch failed",
        "same as one by one",
    ],
}

INDEX = re.compile(r"-?(0|[1-9][0-9]*)\Z")


class FailDict(PlainCopies, dict):
    """A dict that fails at the n-th access."""

    fuse: Any = None


class FailList(PlainCopies, list):
    fuse: Any = None


def _fusing(cls: Any, name: str) -> None:
    base = getattr(cls.__mro__[2], name)

    def method(self: Any, *args: Any) -> Any:
        if self.fuse is not None:
            self.fuse()
        return base(self, *args)

    setattr(cls, name, method)


for _n in ("__getitem__", "__setitem__", "__delitem__"):
    _fusing(FailDict, _n)
for _n in ("__getitem__", "__setitem__", "__delitem__", "insert", "append"):
    _fusing(FailList, _n)


def fused(value: Any, fuse: Any) -> Any:
    if isinstance(value, dict):
        d = FailDict((k, fused(v, fuse)) for k, v in value.items())
        d.fuse = fuse
        return d
    if isinstance(value, list):
        x = FailList(fused(v, fuse) for v in value)
        x.fuse = fuse
        return x
    return value


def clone(v: Any) -> Any:
    return json.loads(json.dumps(v))


def encode(token: Any) -> str:
    return str(token).replace("~", "~0").replace("/", "~1")


def paths_of(value: Any, prefix: Tuple[Any, ...] = ()) -> List[Tuple[Any, ...]]:
    out = [prefix]
    if len(prefix) > 5:
        return out
    if isinstance(value, dict):
        for k, v in value.items():
            out += paths_of(v, (*prefix, k))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            out += paths_of(v, (*prefix, i))
    return out


def find(value: Any, path: Tuple[Any, ...]) -> Any:
    for p in path:
        try:
            value = value[p]
        except (KeyError, IndexError, TypeError):
            return None
    return value


def odd_token(token: Any) -> bool:
    """A token int() accepts, though it isn't an RFC 6901 array index."""
    if not isinstance(token, str) or INDEX.match(token):
        return False
    try:
        int(token)
    except ValueError:
        return False
    return not (len(token) > 1 and token.startswith("0"))


class Refused(Exception):
    pass


def simulate(doc: Any, name: str, path: Any, src: Any, value: Any) -> Any:
    """Roughly what an operation does.  Used to aim, never to judge."""
    if name in ("move", "copy"):
        if name == "move" and path[: len(src)] == src and path != src:
            raise Refused
        value = clone(lookup(doc, src))
        if name == "move":
            doc = simulate(doc, "remove", src, None, None)
        name = "add"
    if name == "test":
        if canon(lookup(doc, path)) != canon(value):
            raise Refused
        return doc
    if not path:
        if name == "remove" or not isinstance(value, (dict, list)):
            raise Refused
        return clone(value)
    parent = lookup(doc, path[:-1])
    last = path[-1]
    if isinstance(parent, dict):
        last = str(last)
        if name == "remove":
            if last not in parent:
                raise Refused
            del parent[last]
        elif name == "addne" and last in parent:
            pass
        elif name == "replace" and last not in parent:
            raise Refused
        else:
            parent[last] = clone(value)
    elif isinstance(parent, list):
        if last == "-":
            if name in ("remove", "replace"):
                raise Refused
            parent.append(clone(value))
        elif not isinstance(last, int):
            raise Refused
        elif -len(parent) <= last < len(parent):
            if name == "remove":
                del parent[last]
            elif name == "replace":
                parent[last] = clone(value)
            else:
                parent.insert(last, clone(value))
        elif name == "addap":
            parent.append(clone(value))
        else:
            raise Refused
    else:
        raise Refused
    return doc


def lookup(doc: Any, path: Tuple[Any, ...]) -> Any:
    for p in path:
        if isinstance(doc, dict):
            if str(p) not in doc:
                raise Refused
            doc = doc[str(p)]
        elif isinstance(doc, list):
            if not isinstance(p, int) or not -len(doc) <= p < len(doc):
                raise Refused
            doc = doc[p]
        else:
            raise Refused
    return doc


class OpGen:
    def __init__(self, ch: Choices, ctx: Ctx, docs: List[Any], docgen: gen.DocGen,
                 unicode_escape: bool, uri_decode: bool) -> None:
        self.ch, self.ctx, self.docs, self.docgen = ch, ctx, docs, docgen
        self.unicode_escape, self.uri_decode = unicode_escape, uri_decode
        self.values: List[Any] = []
        self.state = clone(docs[0])
        self.inserted: List[Tuple[Any, ...]] = []
        self.careless = ch.pick((0, 1, 4), "careless")  # of 8

    def known(self) -> List[Tuple[Any, ...]]:
        return [
            p for p in paths_of(self.state)[:80] if not any(odd_token(t) for t in p)
        ]

    def path(self, fresh: int) -> Tuple[Any, ...]:
        """A location, about `fresh` times in 8 one that is new in its parent."""
        ch = self.ch
        known = self.known()
        inside = [
            p for p in known if any(p[: len(i)] == i and len(p) > len(i) or p == i
                                    for i in self.inserted)
        ]
        new = ch.draw(8, "fresh") < fresh
        if inside and ch.chance(1, 2, "inside an inserted value"):
            pool = inside
        else:
            pool = known
        if new:
            holders = [p for p in pool if isinstance(find(self.state, p), (dict, list))]
            pool = holders or [()]
        elif len(pool) > 1:
            pool = [p for p in pool if p]
        base = ch.pick(pool, "path")
        if not new:
            return base
        parent = find(self.state, base)
        if any(base[: len(i)] == i for i in self.inserted):
            self.ctx.probe("value modified by a later operation")
        if isinstance(parent, list):
            n = len(parent)
            return (*base, ch.pick(
                ("-", 0, max(0, n - 1), "-", 0, n, n + 1, -1, -n, -n - 1, "x", 9),
                "index token"))
        names = [n for n in self.docgen.names if not odd_token(n)] or ["a"]
        return (*base, ch.pick(names + ["new", "zz", "0", "7", "-"], "name token"))

    def spell(self, path: Tuple[Any, ...]) -> str:
        ch = self.ch
        text = "".join("/" + encode(t) for t in path)
        if self.unicode_escape:
            text = text.replace("\\", "\\\\")
            if ch.chance(1, 4, "escape"):
                out = json.dumps(text)[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                # Only what is not ASCII was to be escaped.
                body = "".join(
                    c if 32 <= ord(c) < 127 else json.dumps(c)[1:-1] for c in text
                )
                if body != text:
                    self.ctx.probe("escaped path")
                del out
                text = body
        if self.uri_decode:
            if "%" in text or ch.chance(1, 2, "percent"):
                quoted = quote(text, safe="/")
                if quoted != text:
                    self.ctx.probe("uri path")
                text = quoted
        return text

    def op(self) -> Dict[str, Any]:
        for attempt in range(5):
            name, path, src, value = self.draft()
            try:
                self.state = simulate(clone(self.state), name, path, src, value)
            except Refused:
                if attempt < 4 and self.ch.draw(8, "careless") >= self.careless:
                    continue
            break
        self.ctx.probe(name)
        out: Dict[str, Any] = {"op": name}
        if src is not None:
            out["from"] = self.spell(src)
        out["path"] = self.spell(path)
        if name not in ("remove", "move", "copy"):
            out["value"] = value
            if isinstance(value, (dict, list)) and not any(value is v for v in self.values):
                self.values.append(value)
        if name not in ("remove", "test"):
            if path and path[-1] == "-":
                parent = find(self.state, path[:-1])
                path = (*path[:-1], len(parent) - 1 if isinstance(parent, list) else "-")
            if isinstance(find(self.state, path), (dict, list)):
                self.inserted.append(path)
        return out

    def draft(self) -> Tuple[str, Any, Any, Any]:
        ch = self.ch
        name = ch.weighted(
            ((5, "add"), (3, "addne"), (3, "addap"), (2, "remove"), (3, "replace"),
             (2, "move"), (3, "copy"), (2, "test")), "operation",
        )
        if name in ("add", "addne", "addap"):
            return name, self.path(3 if name == "addne" else 6), None, self.value()
        if name == "replace":
            return name, self.path(0), None, self.value()
        if name == "remove":
            return name, self.path(0), None, None
        if name == "test":
            path = self.path(0)
            v = clone(find(self.state, path))
            return name, path, None, self.value() if ch.chance(1, 6, "failing") else v
        return name, self.path(6), self.path(0), None

    def value(self) -> Any:
        ch = self.ch
        if self.values and ch.chance(1, 5, "shared value"):
            self.ctx.probe("shared value")
            return ch.pick(self.values, "which value")
        return self.docgen.value(ch.pick((2, 1, 0, 2), "value depth"))


# ---------------------------------------------------------------- known findings


def residual(text: str) -> bool:
    return "\\" in text or "%" in text


def known_check(finding: Dict[str, Any]) -> bool:
    """Does a recorded finding still fail?"""
    ops = finding["ops"]
    p = JSONPatch(clone(ops))
    try:
        return JSONPatch(p.asdicts()).asdicts() != p.asdicts()
    except Exception:  # noqa: BLE001
        return True


# ---------------------------------------------------------------- one run


def run(ch: Choices, ctx: Ctx) -> None:  # noqa: PLR0912, PLR0915
    docgen = gen.DocGen(ch)
    docs = [docgen.document()]
    if not isinstance(docs[0], (dict, list)):
        docs[0] = {"a": docs[0]}
    for _ in range(ch.between(0, 2, "documents")):
        d = gen.sibling(ch, docs[0], docgen)
        docs.append(d if isinstance(d, (dict, list)) else [d])
    flags = {
        "unicode_escape": not ch.chance(1, 4, "no unicode escape"),
        "uri_decode": ch.chance(1, 6, "uri decode"),
    }
    opgen = OpGen(ch, ctx, docs, docgen, **flags)
    ops = [opgen.op() for _ in range(ch.between(1, 7, "operations"))]
    ctx.case = short(canon(ops), 300)
    ctx.log("ops", canon(ops), flags)
    for d in docs:
        ctx.log("doc", canon(d))

    def where(extra: str = "") -> str:
        return (
            f"operations {short(canon(ops), 900)}\ndocuments "
            f"{short('; '.join(canon(d) for d in docs), 700)}\noptions {flags}" + extra
        )

    if ch.chance(1, 12, "malformed"):
        malformed(ch, ctx, ops, flags, where)
        return

    # -- references

    def result(patch: Any, doc: Any) -> Tuple[str, str, str, str]:
        try:
            got = patch.apply(doc)
            if CYCLE in canon(got):
                raise Violation("result-not-json", where(f"\ngives {canon(got)}"))
            return ("ok", "", canon(got), canon(doc))
        except Violation:
            raise
        except Exception as err:  # noqa: BLE001
            return ("err", kind_of(err), "", canon(doc))

    def fresh() -> Any:
        p = JSONPatch(clone(ops), **flags)
        return canon(p.asdicts()), [
            result(JSONPatch(clone(ops), **flags), clone(d)) for d in docs
        ]

    printed_fresh, refs = pristine(fresh)
    for r in refs:
        ctx.log("ref", *r)
        if r[0] == "err":
            ctx.probe("operation failed")
        elif r[2] != r[3]:
            ctx.probe("root replaced")

    # -- other patches of the same process

    def noise() -> None:
        """Build and use another patch that has much in common with this one."""
        ctx.probe("another patch in between")
        other = {"unicode_escape": ch.chance(1, 2, "u"), "uri_decode": ch.chance(1, 2, "d")}
        theirs = clone(ops)
        if ch.chance(1, 2, "other values"):
            for op in theirs:
                if "value" in op:
                    op["value"] = [op["value"], "another patch's"]
        if ch.chance(1, 3, "other names"):
            for op in theirs:
                if op["op"] in ("add", "addne", "addap"):
                    op["op"] = ch.pick(("add", "addne", "addap"), "other name")
        try:
            q = JSONPatch(theirs, **other)
            got = q.apply(clone(docs[ch.draw(len(docs), "document")]))
            scribble(got)
            scribble(theirs)
            scribble(q.asdicts())
        except Exception:  # noqa: BLE001
            ctx.probe("the other patch failed")

    if ch.chance(1, 2, "noise"):
        noise()

    # -- every form prints and does the same

    watch = Watch()
    # A caller may use one value several times; keep that in the trapped copy.
    memo: Dict[int, Any] = {}

    def dress(v: Any) -> Any:
        if isinstance(v, (dict, list)):
            if id(v) not in memo:
                memo[id(v)] = trapped(v, watch)
            return memo[id(v)]
        return v

    caller: List[Any] = [{k: dress(v) for k, v in op.items()} for op in ops]
    caller_canon = canon(caller)
    plans: List[Plan] = []

    def build(form: str, source: Optional[Any] = None) -> Any:
        src = caller if source is None else source
        ctx.probe(form + " form")
        if form == "list":
            return JSONPatch(src, **flags)
        if form == "text":
            return JSONPatch(json.dumps(ops, ensure_ascii=ch.chance(1, 2, "ascii")), **flags)
        if form == "file":
            plan = Plan(ch, ctx)
            plan.harmless()
            plans.append(plan)
            kind = ch.pick(("text file", "binary file", "StringIO", "BytesIO"), "file kind")
            return JSONPatch(
                readable(kind, json.dumps(ops), plan, ch.pick((8192, 7), "buffer")), **flags
            )
        if form == "generator":
            return JSONPatch((MappingProxyType(o) for o in src), **flags)
        p = JSONPatch(**flags)
        objects = ch.chance(1, 2, "pointer objects")
        if objects:
            ctx.probe("pointer objects")

        def ptr(text: str) -> Any:
            if not objects or ch.chance(1, 5, "as text"):
                return text
            return pointer_object(ch, ctx, text, docs[0], flags)

        for op in src:
            name = op["op"]
            if name in ("add", "addne", "addap", "replace", "test"):
                back = getattr(p, name)(ptr(op["path"]), op["value"])
            elif name == "remove":
                back = p.remove(ptr(op["path"]))
            else:
                back = getattr(p, name)(ptr(op["from"]), ptr(op["path"]))
            if back is not p:
                raise Violation("builder", where(f"\n{name}() did not return the patch"))
        return p

    first = build("list")
    printed = canon(first.asdicts())
    ctx.log("printed", printed)
    if printed != printed_fresh:
        raise Violation(
            "forms-print-differently",
            where(f"\nprints {printed}\nin a fresh process {printed_fresh}"),
        )
    check_printed(ops, first.asdicts(), flags, where)
    forms: Dict[str, Any] = {"list": first}
    for form in ("text", "file", "builder", "generator"):
        if form == "builder" or ch.chance(1, 2, form):
            forms[form] = build(form)
    out = first.asdicts()
    hard = any(
        residual(d[k]) for d in out for k in ("path", "from") if k in d
    )
    loose = {"unicode_escape": False, "uri_decode": False}
    forms["reloaded"] = JSONPatch(first.asdicts(), **(loose if hard else flags))
    ctx.probe("reloaded form")
    if hard:
        ctx.count("output reloaded without decoding")
    for form, p in forms.items():
        got = canon(p.asdicts())
        if got != printed:
            raise Violation(
                "forms-print-differently", where(f"\n{form}: {got}\nlist: {printed}")
            )
    for form, p in forms.items():
        for i, d in enumerate(docs):
            got2 = result(p, clone(d))
            ctx.count("forms applied")
            if got2 != refs[i]:
                raise Violation(
                    "forms-differ",
                    where(f"\nthe {form} form gives {got2}\na fresh patch {refs[i]}"),
                )
    if ch.chance(1, 4, "module apply"):
        ctx.probe("module apply")
        try:
            d = clone(docs[0])
            r = patch_module.apply(caller, d, **flags)
            got3 = ("ok", "", canon(r), canon(d))
        except Exception as err:  # noqa: BLE001
            got3 = ("err", kind_of(err), "", canon(d))
        if got3 != refs[0]:
            raise Violation("forms-differ", where(f"\npatch.apply gives {got3}"))

    # -- addne and addap compared with add, step by step

    compare_variants(ch, ctx, ops, docs, refs, flags, where)

    # -- one patch object applied again and again

    victim = forms[ch.pick(sorted(forms), "victim")]
    threads = ch.pick((1, 2, 3), "threads")
    faulty = ch.chance(1, 2, "faults")
    kept: List[Tuple[str, Any, str]] = []  # results that must stay as they are
    used = [0, 0]
    scripts: List[List[Dict[str, Any]]] = []
    for _ in range(threads):
        script = []
        for _ in range(ch.between(1, 25 if ctx.tier == "thorough" else 8, "applications")):
            a: Dict[str, Any] = {
                "d": ch.draw(len(docs), "document"),
                "do": ch.weighted(
                    ((6, "apply"), (3, "scribble"), (2, "keep"), (2, "print"), (1, "text"),
                     (1, "rebuild"), (1, "other")), "action",
                ),
                "fault": None,
            }
            if faulty and ch.chance(1, 3, "fault here"):
                a["fault"] = ch.pick(("interrupt", "storage"), "fault")
                a["at"] = ch.pick((1, 2, 3, 5, 8, 13, 21, 34, 55, 89), "at")
            script.append(a)
        scripts.append(script)

    def act(a: Dict[str, Any], name: str, sim: Any) -> None:
        do = a["do"]
        want = refs[a["d"]]
        if do == "print":
            got = canon(victim.asdicts())
            if got != printed:
                raise Violation("patch-changed", where(f"\nbefore {printed}\nnow {got}"))
            return
        if do == "other":
            noise()
            return
        if do == "rebuild":
            p = JSONPatch(caller, **flags)
            if canon(p.asdicts()) != printed:
                raise Violation("forms-print-differently", where("\nbuilt again"))
            if result(p, clone(docs[a["d"]])) != want:
                raise Violation("forms-differ", where("\nbuilt again"))
            return
        doc: Any = clone(docs[a["d"]])
        left = [a.get("at", 0)]
        if a["fault"] == "storage" and do != "text":

            def fuse() -> None:
                left[0] -= 1
                if left[0] == 0:
                    ctx.fault("document storage failure")
                    raise SimIOError("storage")

            doc = fused(doc, fuse)
        if do == "text":
            ctx.probe("text document")
            try:
                r = victim.apply(json.dumps(doc))
                got2 = ("ok", "", canon(r))
            except Exception as err:  # noqa: BLE001
                got2 = ("err", kind_of(err), "")
            if got2 != want[:3]:
                raise Violation("application-differs", where(f"\n{got2}\nfresh {want}"))
            return
        if a["fault"] == "interrupt" and sim is not None:
            sim.arm_interrupt(a["at"])
        try:
            got3 = victim.apply(doc)
            outcome = ("ok", "", canon(got3), canon(doc))
        except Exception as err:  # noqa: BLE001
            got3 = doc
            if isinstance(err, SimIOError):
                raise
            if isinstance(err.__cause__ or err.__context__, SimIOError):
                raise SimIOError("storage") from err
            outcome = ("err", kind_of(err), "", canon(doc))
        finally:
            if sim is not None:
                sim.disarm_interrupt()
        used[0] += 1
        ctx.sched(name, a["d"], outcome[0])
        ctx.log(name, do, a["d"], *outcome)
        if outcome[0] == "ok" and outcome[2] != canon(docs[a["d"]]):
            used[1] += 1
        ctx.count("applications compared")
        if outcome != want:
            raise Violation(
                "application-differs",
                where(f"\napplication {used[0]} gives {outcome}\na fresh patch {want}"),
            )
        if do == "scribble":
            ctx.probe("result scribbled on")
            scribble(got3)
            scribble(doc)
        elif do == "keep" and not isinstance(doc, (FailDict, FailList)):
            kept.append((f"{name}", got3, outcome[2] or outcome[3]))
        if canon(caller) != caller_canon:
            raise Violation(
                "caller-operations-changed",
                where(f"\nnow {canon(caller)}\nbefore {caller_canon}"),
            )

    def body(script: List[Dict[str, Any]], name: str, sim: Any) -> None:
        for a in script:
            try:
                act(a, name, sim)
            except SimInterrupt:
                ctx.probe("interrupted")
            except SimIOError:
                ctx.probe("storage failed")
            finally:
                if sim is not None:
                    sim.disarm_interrupt()

    if threads == 1 and not faulty:
        body(scripts[0], "m", None)
    else:
        if threads > 1:
            ctx.probe("threads")
        sim = ThreadSim(
            ch, ctx, boot.package_root(),
            focus=ch.pick((None, "patch.py", "pointer.py"), "focus"),
            opcodes=ch.chance(1, 6, "byte codes"),
            race=ch.chance(1, 3, "race"),
        )
        for i, s in enumerate(scripts):
            sim.spawn(f"t{i}", lambda s=s, n=f"t{i}": body(s, n, sim))
        sim.run()
        for t in sim.threads:
            if t.error is not None:
                raise t.error

    # -- afterwards

    if watch.events and canon(caller) != caller_canon:
        raise Violation("caller-operations-changed", where(f"\n{watch.events[0]}"))
    if canon(caller) != caller_canon:
        raise Violation("caller-operations-changed", where(f"\nnow {canon(caller)}"))
    for name, got4, text in kept:
        if canon(got4) != text:
            raise Violation(
                "results-not-independent",
                where(f"\na result was {text}\nafter other applications {canon(got4)}"),
            )
    for form, p in forms.items():
        if canon(p.asdicts()) != printed:
            raise Violation(
                "patch-changed",
                where(f"\n{form}: before {printed}\nnow {canon(p.asdicts())}"),
            )
        for i, d in enumerate(docs):
            got5 = result(p, clone(d))
            if got5 != refs[i]:
                raise Violation(
                    "application-differs",
                    where(f"\nat the end, the {form} form gives {got5}\na fresh patch "
                          f"{refs[i]}"),
                )
    if ch.chance(1, 4, "extend"):
        ctx.probe("patch extended")
        victim.add("/added~1later", [1])
        for form, p in forms.items():
            want2 = json.loads("[]")
            got6 = p.asdicts()
            if p is victim:
                last = got6[-1]
                if canon(last) != canon({"op": "add", "path": "/added~1later", "value": [1]}):
                    raise Violation("patch-changed", where(f"\nextended: {canon(last)}"))
                got6 = got6[:-1]
            del want2
            if canon(got6) != printed:
                raise Violation(
                    "patches-not-independent",
                    where(f"\n{form} after extending another: {canon(got6)}"),
                )
    if used[0] >= 2 and used[1]:
        ctx.nontrivial = True


def pointer_object(ch: Choices, ctx: Ctx, text: str, doc: Any, flags: Any) -> Any:
    """A pointer object for a path, made in one of the documented ways."""
    plain = JSONPointer(text, **flags)
    how = ch.pick(("text", "parts", "match", "joined", "parent", "relative"), "made from")
    try:
        made = _made(ch, how, plain, doc)
    except Exception:  # noqa: BLE001
        return plain  # pointers are not what is checked here
    # Pointers normalise some spellings.  Those that print the same are equivalent.
    if made is None or str(made) != str(plain):
        return plain
    ctx.probe("pointer from " + how)
    return made


def _made(ch: Choices, how: str, plain: Any, doc: Any) -> Any:
    tokens = [t.replace("~1", "/").replace("~0", "~") for t in str(plain).split("/")][1:]
    if how == "parts":
        return JSONPointer.from_parts(tokens, unicode_escape=False)
    if how == "match":
        parts: List[Any] = []
        value = doc
        for t in tokens:
            part = int(t) if isinstance(value, list) else t
            value = value[part]
            parts.append(part)
        return JSONPathMatch(
            filter_context={}, obj=value, parent=None, path="", parts=tuple(parts),
            root=doc,
        ).pointer()
    if how == "parent":
        return JSONPointer(str(plain) + "/x", unicode_escape=False).parent()
    if not tokens:
        return None
    n = ch.draw(len(tokens), "split at")
    head = "".join("/" + encode(t) for t in tokens[:n])
    tail = "/".join(encode(t) for t in tokens[n:]).replace("\\", "\\\\")
    base = JSONPointer(head, unicode_escape=False)
    if how == "joined":
        return base / tail
    return (base / "y").to("1/" + tail)


def check_printed(ops: Any, printed: Any, flags: Any, where: Any) -> None:
    """The printed list carries what was given."""
    if len(ops) != len(printed):
        raise Violation(
            "printed-differs", where(f"\n{len(ops)} operations, printed {printed}")
        )
    for op, got in zip(ops, printed):
        want = {
            k: (str(JSONPointer(v, **flags)) if k in ("path", "from") else v)
            for k, v in op.items()
        }
        if canon(dict(sorted(want.items()))) != canon(dict(sorted(got.items()))):
            raise Violation("printed-differs", where(f"\ngiven {op}\nprinted {got}"))
        plain = not flags["uri_decode"] and not any(
            "\\" in op.get(k, "") for k in ("path", "from")
        )
        if plain and canon(dict(sorted(op.items()))) != canon(dict(sorted(got.items()))):
            raise Violation("printed-differs", where(f"\ngiven {op}\nprinted {got}"))


def compare_variants(
    ch: Choices, ctx: Ctx, ops: Any, docs: Any, refs: Any, flags: Any, where: Any
) -> None:
    """addne and addap against add; the whole against its operations one by one."""
    which = ch.draw(len(docs), "variants document")
    doc = clone(docs[which])
    failed = False
    for op in ops:
        if op["op"] in ("addne", "addap"):
            variant(ctx, op, doc, flags, where)
        try:
            doc = JSONPatch([op], **flags).apply(doc)
        except Exception:  # noqa: BLE001
            failed = True
            continue
        if not isinstance(doc, (dict, list)):
            return
        if CYCLE in canon(doc):
            raise Violation("result-not-json", where(f"\n{canon(op)} gives {canon(doc)}"))
        doc = clone(doc)
    if not failed and (refs[which][0] != "ok" or refs[which][2] != canon(doc)):
        raise Violation(
            "forms-differ",
            where(f"\none operation at a time: {canon(doc)}\nthe patch: {refs[which]}"),
        )
    if not failed:
        ctx.probe("same as one by one")


def outcome_of(op: Any, doc: Any, flags: Any) -> Tuple[str, str]:
    d = clone(doc)
    try:
        return ("ok", canon(JSONPatch([clone(op)], **flags).apply(d)))
    except Exception as err:  # noqa: BLE001
        return ("err", canon(d) + kind_of(err))


def variant(ctx: Ctx, op: Any, doc: Any, flags: Any, where: Any) -> None:
    """addne and addap against add on one document."""
    pointer = JSONPointer(op["path"], **flags)
    tokens = [
        t.replace("~1", "/").replace("~0", "~") for t in str(pointer).split("/")
    ][1:]
    got = outcome_of(op, doc, flags)
    add = outcome_of(dict(op, op="add"), doc, flags)
    parent: Any = clone(doc)
    for t in tokens[:-1]:
        if isinstance(parent, dict) and t in parent:
            parent = parent[t]
        elif (
            isinstance(parent, list)
            and INDEX.match(t)
            and -len(parent) <= int(t) < len(parent)
        ):
            parent = parent[int(t)]
        else:
            parent = None
            break
    wants = [add]
    if not tokens or parent is None:
        pass
    elif op["op"] == "addne":
        if isinstance(parent, dict) and tokens[-1] in parent:
            ctx.probe("addne existing member")
            wants = [("ok", canon(doc))]
        elif isinstance(parent, dict):
            ctx.probe("addne new member")
    elif isinstance(parent, list):
        last = tokens[-1]
        number = INDEX.match(last) is not None and last != "-0"
        resolved = number and -len(parent) <= int(last) < len(parent)
        if resolved:
            ctx.probe("addap resolved index")
        elif last != "-":
            appended = outcome_of(
                dict(op, op="add", path=_sibling(op["path"], flags)), doc, flags
            )
            if number:
                ctx.probe("addap unresolved index")
                wants = [appended]
            else:
                wants = [appended, add]
    ctx.count("variants compared with add")
    if got not in wants:
        raise Violation(
            f"{op['op']}-differs-from-add",
            where(
                f"\noperation {canon(op)}\non {canon(doc)}\ngives {got}\n"
                f"expected {wants}"
            ),
        )


def _sibling(path: str, flags: Any) -> str:
    """The path of a new item at the end of the same array."""
    return path[: path.rindex("/")] + "/-"


def malformed(ch: Choices, ctx: Ctx, ops: Any, flags: Any, where: Any) -> None:
    """Loaders agree on what they refuse."""
    ctx.probe("malformed operation")
    bad = clone(ops)
    i = ch.draw(len(bad), "which operation")
    what = ch.draw(5, "what")
    if what == 0:
        bad[i].pop(ch.pick(sorted(bad[i]), "member"))
    elif what == 1:
        bad[i]["op"] = ch.pick(("Add", "nosuch", "", None, 1, " " + bad[i]["op"], bad[i]["op"] + "\n",
                               bad[i]["op"].upper()), "name")
    elif what == 2:
        bad[i]["path"] = ch.pick((1, None, [], "a", "a/b"), "path")
    elif what == 3:
        bad[i]["note"] = "an unknown member"
    else:
        bad = ch.pick(({"op": "add"}, "[", [1], [None]), "document")
    given = canon(bad)
    outs = []
    for form in ("list", "text", "file"):
        if isinstance(bad, str) and form == "list":
            continue
        try:
            if form == "list":
                src: Any = bad
            else:
                text = bad if isinstance(bad, str) else json.dumps(bad)
                src = text
                if form == "file":
                    plan = Plan(ch, ctx)
                    plan.harmless()
                    src = readable("text file", text, plan)
            p = JSONPatch(src, **flags)
            outs.append((form, "ok", canon(p.asdicts())))
            if what < 4 and [d["op"] for d in p.asdicts()] != [o["op"] for o in bad]:
                raise Violation(
                    "printed-differs", where(f"\ngiven {given}\nprinted {outs[-1][2]}")
                )
        except Violation:
            raise
        except Exception as err:  # noqa: BLE001
            outs.append((form, "err", kind_of(err)))
    ctx.log("malformed", given, outs)
    if canon(bad) != given:
        raise Violation(
            "caller-operations-changed", where(f"\ngiven {given}\nnow {canon(bad)}")
        )
    ctx.nontrivial = True
    if len({o[1:] for o in outs}) > 1:
        raise Violation(
            "forms-differ", where(f"\nloading {short(canon(bad), 600)}\ngives {outs}")
        )
