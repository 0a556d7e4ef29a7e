"""C11: all query entry points agree with one another on every input.

Every entry point (package, environment, compiled; find-all, find-iter, match,
query) is called with the document as a value, as text and as simulated files
that read short, are interrupted, truncated or fail.  The lazy results are advanced
out of step.  Compound queries are compared with a model made of their operands'
results.
"""

from __future__ import annotations

import json
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

import jsonpath

from ..canon import canon
from ..canon import json_equal
from ..canon import match_canon
from ..core import Choices
from ..core import Ctx
from ..core import Violation
from ..core import short
from ..data import kind_of
from ..simio import KINDS
from ..simio import Plan
from ..simio import readable
from .. import gen

RUNS = {"quick": 40000, "thorough": 400000}

META = {
    "rule": (
        "one evaluation = one simulated run: one query through up to 14 (thorough: 40) "
        "entry points with documents as values, text and simulated files; non-trivial = "
        "a match or an error to agree on and at least one file or two lazy results out "
        "of step; distinct by the hash of the event log"
    ),
    "interleaving_measure": (
        "hash of the order in which lazy results were advanced and of the transfers, "
        "interruptions and failures of the simulated files"
    ),
    "real": [
        "jsonpath: everything below the entry points",
        "json, io.TextIOWrapper, io.BufferedReader, tempfile.SpooledTemporaryFile",
    ],
    "stub": ["the raw layer of files"],
    "assumptions": [
        "errors agree in kind for simple queries, in occurrence for compound ones, "
        "whose operands may be evaluated in any order",
        "with a read error or a truncated file, a call raises or gives the right result",
        "equality of JSON values: 1 == 1.0, 1 != true, members unordered",
    ],
    "probes": [
        "union", "intersection", "three or more operands", "focus", "mirrored lists", "intersection keeps some",
        "intersection drops some", "duplicates", "text", "text file", "binary file",
        "raw file", "wrapper", "utf-16 file", "StringIO", "BytesIO", "spooled file",
        "package", "environment", "compiled", "findall", "finditer", "match", "query",
        "empty result", "result is an error", "compile error", "compound on a file",
        "custom tokens", "interleaved", "file failure noticed", "model compared",
        "scalar document", "big text", "containers occurring more than once",
    ],
}


class Tokens(jsonpath.JSONPathEnvironment):
    """The compound operators are configurable."""

    union_token = "<+>"
    intersection_token = "<*>"


def gather(call: Any) -> Tuple[str, str, List[Any]]:
    """(status, error kind, matches) of a consumed find-iter."""
    items: List[Any] = []
    try:
        for m in call():
            items.append(m)
    except Exception as err:  # noqa: BLE001
        return ("err", kind_of(err), items)
    return ("ok", "", items)


def run(ch: Choices, ctx: Ctx) -> None:  # noqa: PLR0912, PLR0915
    docgen = gen.DocGen(ch)
    ext = not ch.chance(1, 6, "standard only")
    focus: Optional[gen.Focus] = None
    if ch.chance(1, 5, "focus"):
        ctx.probe("focus")
        focus = gen.Focus(ch, False, ext)
    mirror = ext and not focus and ch.chance(1, 6, "mirror")
    if mirror:
        ctx.probe("mirrored lists")
        doc = gen.mirrored(ch, docgen)
    else:
        doc = focus.document() if focus else docgen.document()
    if not focus and not mirror and ch.chance(1, 3, "more echoes"):
        docgen.echo(doc)
    if not focus and not mirror and ch.chance(1, 10, "scalar document"):
        doc = ch.pick(gen.SCALARS + ('"a"', "[1, 2]", '{"a": 1}', "[", "1e1", "\\u0061"), "scalar")
        ctx.probe("scalar document")
    # A string given as a document is JSON text, so there's no such value to give.
    text_only = isinstance(doc, str)
    # Padding in the text, not in the value: the work must stay bounded.
    indents: Tuple[Any, ...] = (None, 2, None)
    if ch.chance(1, 8, "big text"):
        indents = (97, 500, 2000)
        ctx.probe("big text")
    fc = None
    if ch.chance(1, 3, "context"):
        fc = focus.context() if focus else gen.context(ch, docgen)
    well_typed = not ch.chance(1, 6, "no type checks")
    custom = ext and not focus and ch.chance(1, 8, "custom tokens")
    kw: Dict[str, Any] = {"well_typed": well_typed,
                          "filter_caching": not ch.chance(1, 5, "no caching")}
    env: Any = Tokens(**kw) if custom else jsonpath.JSONPathEnvironment(**kw)
    if custom:
        ctx.probe("custom tokens")
    union, intersection = env.union_token, env.intersection_token
    qgen = gen.QueryGen(
        ch, [doc], [fc] if fc is not None else [], ext=ext,
        rooty=ch.pick((2, 1, 4), "rooty"), well_typed=well_typed,
    )
    simple = focus.query if focus else qgen.simple
    parts = [simple()]
    ops: List[str] = []
    if mirror:
        parts, ops = gen.mirror_query(ch, doc, union, intersection)
    elif ext and ch.chance(3, 5, "compound"):
        for _ in range(ch.between(1, 4, "operands")):
            ops.append(ch.pick((union, intersection), "operator"))
            if ch.chance(1, 3, "related operand"):
                parts.append(ch.pick(("$..*", "$.*", "$..[*]", parts[0], "$.*.*", "$[0, 0]",
                                      "$[-1]", "$[1:]", "$..*[*]"), "operand"))
            else:
                parts.append(simple())
    sp = ch.pick((" ", "  ", " "), "space")
    text = parts[0]
    for op, p in zip(ops, parts[1:]):
        text += sp + op + sp + p
    malformed = ch.chance(1, 12, "malformed")
    if malformed:
        text = qgen.mutated(text)
    compound = bool(ops)
    if union in ops:
        ctx.probe("union")
    if intersection in ops:
        ctx.probe("intersection")
    if len(ops) >= 2:
        ctx.probe("three or more operands")
    ctx.case = text[:300]
    ctx.log("query", text, "over", canon(doc), "context", canon(fc))

    def where(extra: str = "") -> str:
        return (
            f"query {text!r}\ndocument {short(canon(doc), 700)}\n"
            f"filter context {short(canon(fc), 300)}\nenvironment {kw}"
            + (", custom tokens" if custom else "") + extra
        )

    def fresh() -> Any:
        return json.dumps(doc) if text_only else json.loads(json.dumps(doc))

    shared = ch.chance(1, 4, "shared containers")

    def value() -> Any:
        if shared and isinstance(doc, (dict, list)):
            ctx.probe("containers occurring more than once")
            return gen.share(ch, doc)
        return fresh()

    # -- reference

    ref = gather(lambda: env.finditer(text, fresh(), filter_context=fc))
    want = [match_canon(m) for m in ref[2]]
    wanted_values = [canon(m.obj) for m in ref[2]]
    if ref[0] == "err":
        ctx.probe("result is an error")
    elif not want:
        ctx.probe("empty result")
    try:
        path: Any = env.compile(text)
        compile_error = ""
    except Exception as err:  # noqa: BLE001
        path = None
        compile_error = kind_of(err)
        ctx.probe("compile error")
        if ref[0] != "err" or ref[1] != compile_error:
            raise Violation(
                "entry-points-differ",
                where(f"\ncompile raises {compile_error}, find-iter {ref[:2]}"),
            ) from None
    ctx.log("ref", ref[0], ref[1], "|".join(want))
    if len(set(want)) < len(want):
        ctx.probe("duplicates")

    # -- the model of compound queries

    if compound and not malformed:
        comps = [gather(lambda p=p: env.finditer(p, fresh(), filter_context=fc))
                 for p in parts]
        if sum(len(c[2]) for c in comps) > 600:
            ctx.count("model skipped, too many matches")
        elif all(c[0] == "ok" for c in comps):
            if compile_error:
                if all(p[0] in "$^" for p in parts):
                    raise Violation(
                        "compound-rejected",
                        where(f"\nevery operand is accepted, the query is not: "
                              f"{compile_error}"),
                    )
            else:
                ctx.probe("model compared")
                model = list(comps[0][2])
                for op, c in zip(ops, comps[1:]):
                    if op == union:
                        model = model + c[2]
                    else:
                        kept = [m for m in model
                                if any(json_equal(m.obj, o.obj) for o in c[2])]
                        if kept:
                            ctx.probe("intersection keeps some")
                        if len(kept) < len(model):
                            ctx.probe("intersection drops some")
                        model = kept
                expect = [match_canon(m) for m in model]
                if ref[0] != "ok" or expect != want:
                    raise Violation(
                        "compound-differs-from-operands",
                        where(f"\nfind-iter: {ref[0]} {ref[1]} {short(want, 900)}\n"
                              f"from the operands: {short(expect, 900)}"),
                    )
        elif ref[0] == "ok" and union in ops and intersection not in ops:
            raise Violation(
                "compound-differs-from-operands",
                where(f"\nan operand of the union raises alone, the union does not: "
                      f"{[c[:2] for c in comps]}"),
            )

    # -- entry points

    default_env = well_typed and not custom
    levels = ["environment"] + (["compiled"] if path is not None else [])
    if default_env:
        levels.append("package")
    faulty = ch.chance(1, 3, "faults")
    calls = ch.between(3, 40 if ctx.tier == "thorough" else 14, "calls")
    lazy: List[Dict[str, Any]] = []
    files = 0

    def document(call: Dict[str, Any]) -> Any:
        nonlocal files
        form = call["form"]
        plan = call["plan"]
        if form == "value":
            return value()
        body = json.dumps(
            doc,
            indent=ch.pick(indents, "indent"),
            ensure_ascii=not ch.chance(1, 2, "not ascii"),
        )
        pad = ch.pick(("", "\n", " \n\t"), "white space")
        body = pad + body + pad
        ctx.probe(form)
        if form == "text":
            return body
        files += 1
        if compound:
            ctx.probe("compound on a file")
        n = len(body.encode("utf-8"))
        if call["fault"] == "read error":
            plan.read_error_at = ch.draw(n + 1, "error at")
        elif call["fault"] == "truncated" and isinstance(doc, (dict, list)):
            # What is left of a number may be a number.
            plan.truncate_at = ch.draw(n, "truncate at")
        return readable(form, body, plan, ch.pick((8192, 16, 1, 512), "buffer"))

    def settle(call: Dict[str, Any], got: Tuple[str, str, List[str]]) -> None:
        """Compare a finished call."""
        ctx.count("calls compared")
        what = (
            f"\n{call['level']} {call['op']} with the document as {call['form']}"
            f" (faults {call['plan'].fired})"
        )
        ctx.log(call["level"], call["op"], call["form"], got[0], got[1], len(got[2]))
        if call["plan"].fired and got[0] == "err":
            ctx.probe("file failure noticed")
            return
        status, kind, items = got
        if call["op"] == "findall":
            expected = wanted_values
        elif call["op"] == "values":
            expected = wanted_values
        else:
            expected = want
        if call["op"] == "match":
            if want and ref[0] == "err" and status == "err":
                return  # unspecified
            if want:
                good = status == "ok" and items == want[:1]
            elif ref[0] == "err":
                good = status == "err" and (compound or kind == ref[1])
            else:
                good = status == "ok" and items == []
        elif ref[0] == "err":
            good = status == "err" and (compound or kind == ref[1])
        else:
            good = status == "ok" and items == expected
        if not good:
            raise Violation(
                "entry-points-differ",
                where(what + f"\ngives {status} {kind} {short(items, 900)}\n"
                      f"expected, from environment find-iter of the value: "
                      f"{ref[0]} {ref[1]} {short(expected, 900)}"),
            )

    for i in range(calls):
        call: Dict[str, Any] = {
            "level": ch.pick(levels, "level"),
            "op": ch.pick(("finditer", "findall", "match", "query", "values"), "call"),
            "form": ch.pick(("text" if text_only else "value", "text") + KINDS, "form"),
            "plan": Plan(ch, ctx),
            "fault": None,
        }
        if call["form"] not in ("value", "text"):
            call["plan"].harmless()
            if call["form"] in ("raw file",):
                call["plan"].eintr = 0  # only buffered files retry
            if faulty and ch.chance(1, 3, "fault here"):
                call["fault"] = ch.pick(("read error", "truncated"), "fault")
        ctx.probe(call["level"])
        ctx.probe("query" if call["op"] == "values" else call["op"])
        target: Any
        args: Tuple[Any, ...]
        if call["level"] == "compiled":
            target, args = path, ()
        else:
            target = jsonpath if call["level"] == "package" else env
            args = (text,)
        args += (document(call),)
        ckw = {"filter_context": fc} if fc is not None or ch.chance(1, 2, "none") else {}
        ctx.log("call", i, call["level"], call["op"], call["form"], call["fault"])
        try:
            if call["op"] == "findall":
                got = target.findall(*args, **ckw)
                if type(got) is not list:
                    raise Violation("entry-points-differ", where(f"\nfindall: {got!r}"))
                settle(call, ("ok", "", [canon(v) for v in got]))
            elif call["op"] == "match":
                m = target.match(*args, **ckw)
                settle(call, ("ok", "", [] if m is None else [match_canon(m)]))
            else:
                if call["op"] == "finditer":
                    it = iter(target.finditer(*args, **ckw))
                elif call["op"] == "query":
                    it = iter(target.query(*args, **ckw))
                else:
                    it = iter(target.query(*args, **ckw).values())
                call["it"], call["items"], call["id"] = it, [], i
                lazy.append(call)
        except Violation:
            raise
        except Exception as err:  # noqa: BLE001
            settle(call, ("err", kind_of(err), []))

    # -- advance the lazy results out of step

    if len(lazy) > 1:
        ctx.probe("interleaved")
    in_step = ch.chance(1, 4, "one after the other")
    while lazy:
        i = 0 if in_step else ch.draw(len(lazy), "which")
        call = lazy[i]
        ctx.sched(call["id"], len(call["items"]))
        try:
            m = next(call["it"])
        except StopIteration:
            lazy.pop(i)
            settle(call, ("ok", "", call["items"]))
            continue
        except Exception as err:  # noqa: BLE001
            lazy.pop(i)
            settle(call, ("err", kind_of(err), call["items"]))
            continue
        call["items"].append(canon(m) if call["op"] == "values" else match_canon(m))
        if len(call["items"]) > len(want):
            settle(call, ("ok", "", call["items"]))
    if (want or ref[0] == "err") and (files or calls > 1):
        ctx.nontrivial = True
