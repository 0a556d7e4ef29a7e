"""C18: the command-line tool is a faithful front end to the library.

One to three processes are simulated one after the other.  Each has its own command
line, standard streams and open files, on one simulated disk, and ends the way a
Python process ends: exit status, traceback, last flush of the standard streams.
Files and streams transfer short, are interrupted, fail, fill up or break; an
interrupt or an allocation failure may hit any line of the library.  The reference
is the corresponding library call on the same expression and document.
"""

from __future__ import annotations

import builtins
import contextlib
import errno
import io
import json
import os
import runpy
import sys
import traceback
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

import jsonpath
import jsonpath.cli
from jsonpath.exceptions import JSONPatchError
from jsonpath.exceptions import JSONPathError
from jsonpath.exceptions import JSONPointerError

from ..boot import package_root
from ..core import Choices
from ..core import Ctx
from ..core import RunTooLong
from ..core import Violation
from ..core import short
from ..simio import Disk
from ..simio import Plan
from ..simio import SimRaw
from .. import gen
from . import c15

RUNS = {"quick": 30000, "thorough": 300000}

META = {
    "rule": (
        "one evaluation = one simulated run: one to three command-line invocations, one "
        "after the other, on one simulated disk; non-trivial = an expression that "
        "resolves to something, a rejection, or a fault that fired; distinct by the hash "
        "of the event log"
    ),
    "interleaving_measure": (
        "hash of the order of transfers, interruptions and failures on the simulated "
        "streams; invocations themselves are sequential"
    ),
    "real": [
        "jsonpath.cli and jsonpath.__main__, and the library below them",
        "argparse, json, runpy, io.TextIOWrapper, io.BufferedReader, io.BufferedWriter",
    ],
    "stub": [
        "the raw layer of files and standard streams, open()",
        "process start and exit (exit status, traceback, last flush)",
    ],
    "assumptions": [
        "UTF-8 mode: text files and standard streams are UTF-8",
        "queries and pointers read from files neither begin nor end in white space and "
        "hold no carriage return; a final newline in the file is not part of them",
        "where the library itself raises an exception that is not one of its own, or "
        "not a decoding error, all that is asked of the tool is a non-zero exit status",
        "with an I/O error, an interrupt or an allocation failure the exit status is 0 "
        "only if the output is complete and exact",
        "the standard-output form of an accepted invocation has no trailing newline",
    ],
    "probes": [
        "path", "pointer", "patch", "inline", "expression file", "expression on stdin",
        "document file", "document on stdin", "document - ", "output file", "stdout",
        "output -", "output file existed", "pretty", "debug", "no unicode escape",
        "uri decode", "no type checks", "main()", "python -m", "script",
        "accepted", "rejected", "rejected under debug", "rejected: expression",
        "rejected: document", "rejected: patch file", "rejected: resolution",
        "options matter", "fatal fault fired", "missing file", "big output",
        "deep document", "unprintable",
        "rejected: nesting", "empty result", "string document", "second invocation",
    ],
}

REJECTIONS = (JSONPathError, JSONPointerError, JSONPatchError)


def library(sub: str, expr: Any, doc: Any, opt: Dict[str, bool]) -> Any:
    """The library call a sub-command stands for."""
    if sub == "path":
        env = jsonpath.JSONPathEnvironment(
            unicode_escape=not opt["no-unicode-escape"],
            well_typed=not opt["no-type-checks"],
        )
        return env.compile(expr).findall(doc)
    if sub == "pointer":
        return jsonpath.pointer.resolve(
            expr,
            doc,
            unicode_escape=not opt["no-unicode-escape"],
            uri_decode=opt["uri-decode"],
        )
    return jsonpath.patch.apply(
        expr,
        doc,
        unicode_escape=not opt["no-unicode-escape"],
        uri_decode=opt["uri-decode"],
    )


def reference(
    sub: str, expr: Any, document: bytes, text: bool, opt: Dict[str, bool], pretty: bool
) -> Tuple[str, str]:
    """("ok", the output), ("rejected", why) or ("internal", exception)."""
    if sub == "patch":
        try:
            expr = json.loads(expr)
        except (ValueError, RecursionError):
            return ("rejected", "patch file")
        if not isinstance(expr, list):
            return ("rejected", "patch file")
    bad_document = False
    doc: Any = None
    try:
        doc = json.loads(document.decode("utf-8") if text else document)
    except (ValueError, RecursionError):
        bad_document = True
    if isinstance(doc, str):
        doc = (
            io.StringIO(document.decode("utf-8")) if text else io.BytesIO(document)
        )
    if bad_document:
        # The library may reject the expression first.
        return ("rejected", "document")
    try:
        got = library(sub, expr, doc, opt)
    except RecursionError:
        return ("rejected", "nesting")
    except REJECTIONS as err:
        if sub == "path":
            return ("rejected", "expression")
        return ("rejected", "resolution" if sub == "pointer" else type(err).__name__)
    except Exception as err:  # noqa: BLE001
        return ("internal", type(err).__name__)
    try:
        return ("ok", json.dumps(got, indent=2 if pretty else None))
    except RecursionError:
        # There is no such text to be had from Python's encoder.
        return ("unprintable", "")


# ---------------------------------------------------------------- inputs

ODD = {
    "é": [1, {"a": "é"}],
    "\\u00e9": {"raw": True},
    "a b": {"x": [1, 2]},
    "a%20b": "percent",
    "m~n": 8,
    "a/b": [None],
    "☺": "\ud83d\ude00",
    "\U0001f600": {"b": 1},
    "tab\t": 0,
    "-": "dash",
}

ODD_QUERIES = (
    '$["\\u00e9"]', "$['\\u00e9']", '$["\\u00e9"][1].a', "$.é", '$["a b"]', '$["a%20b"]',
    '$["\\ud83d\\ude00"]', '$["\\ud83d"]', '$["\\n"]', "$['a\\/b']", '$[?@.a == "\\u00e9"]',
    "$..['\\u0061']", "$['\\x']",
)
ODD_POINTERS = (
    "/\\u00e9", "/é", "/a%20b", "/a b", "/m~0n", "/a~1b", "/é/1/a", "/%C3%A9", "/%ff", "/-",
    "/\\ud83d\\ude00", "/\\ud83d", "/\\u00e", "/m~n", "/m%7E0n", "/a%2Fb", "/\\u00e9/raw",
    "/a%20b/x", "/#é", "/é/#1", "/tab\t", "/tab\\t", "",
)
ILL_TYPED = (
    "$[?count(@.a) == 1]", "$[?count(1) == 1]", "$[?length(@.*) > 1]", "$[?@.* == 1]",
    "$[?match(@.a)]", "$[?nosuch(@.a)]", "$.a[?nosuch(1) == 1]", "$[?length(@.a)]",
    "$[?count(@..*) >= 0]", "$[?match(@.a, 'a')==true]", "$[?value(@..a) == 1]",
    "$[?length(@..*) == 1]", "$[?length(1) == 1]", "$..[?match(@, 'a') == true]",
    "$..[?@.* == @.*]", "$..[?value(1) == 1]",
)
BAD_QUERIES = (
    "$[", "$.", "", " ", "$[9007199254740992]", "$[-9007199254740992]", "$[01]", "$[?@.a ==]",
    "$[1e400]", "$[?@.a == 1e400]", "$[?@.a =~ /(/]", "$['a", '$["\\u12"]', "$[?(@.a]", "foo(",
    "$.a\n[", "$\n\n.a.[", "$[?@.a == 'x\ny' &&]", "$[1:2:0]", "$[?@.a == 01]", "$ & ", "| $.a",
    "$.a |", "$[?]", "$..", "$[?@ && ]", "$[?!]", "$[::", "$[?@.a < 1.]", "-", "--", "-x",
    "$[?@.a == 1e+]", "$[\u2028]", "$.\u2028", "$['a'", "$['\ud800']", "\x0c", "$\x00",
    "$[0, ]", "$[?nosuch()]", "$[12345678901234567890123]", "$[?1]",
    "$[?@.a == \"\\uD800\"]", "$[?'a']", "$[?@.a == 'b'] extra",
)
BAD_POINTERS = (
    "a", "a/b", " /a", "0/a", "1", "#", "/nosuch", "/a/nosuch/b", "/99", "/-1", "/01", "/~", "/~2",
    "/\\u12", "/\\u0", "/a\\", "/%", "/%zz", "-", "/a\n/b", "/9007199254740993", "/\u2028x", "/ ",
    "//", "/\\x", "/é/99999999999999999999", "/é/1e1", "/é/+1", "/#nosuch", "\n", "/é/-", "/a/#99",
    "/" + "9" * 30, "/é/" + "9" * 5000,
)
BAD_PATCHES = (
    b"", b"[", b"{}", b'"[]"', b"null", b"1", b"[1]", b"[null]", b'[{"op":"add"}]', b"[[]]",
    b'[{"op":"nosuch","path":"/a"}]', b'[{"path":"/a","value":1}]', b'\xff\xfe[\x00]\x00',
    b'[{"op":"add","path":"a","value":1}]', b'[{"op":"add","path":1,"value":1}]', b"\xff",
    b'[{"op":"remove"}]', b'[{"op":"move","path":"/a"}]', b'[{"op":"copy","from":1,"path":"/a"}]',
    b'[{"op":"test","path":"/nosuch","value":1}]', b'[{"op":"test","path":"","value":"\\u2028 x"}]',
    b'[{"op":"remove","path":""}]', b'[{"op":"move","from":"","path":"/a"}]', b"[]]", b"[{]",
    b'[{"op":"add","path":"/\\\\u12","value":1}]', b'[{"op":"remove","path":"/a\\nb"}]',
    b'[{"op":null,"path":"/a"}]', b'[{"op":["add"],"path":"/a","value":1}]', b"[" * 200000,
    b'[{"op":"add","path":"","value":' + b"9" * 5000 + b"}]", b"\xef\xbb\xbf[]", b'["\xff"]',
)


def documents(ch: Choices, ctx: Ctx, docgen: gen.DocGen) -> Tuple[Any, bytes]:
    """A document, and the bytes of its file, perhaps not decodable."""
    doc = docgen.document()
    if ch.chance(1, 2, "odd members"):
        odd = {k: ODD[k] for k in ch.subset(sorted(ODD), 1, 2, "odd member")}
        if isinstance(doc, dict):
            doc = {**doc, **odd}
        elif isinstance(doc, list):
            doc = [*doc, odd]
        else:
            doc = odd
    if ch.chance(1, 14, "scalar document"):
        doc = ch.pick(("abc", "", "[1]", "{\"a\": 1}", 1, None, True, 1.5, "é", []), "scalar")
    if isinstance(doc, str):
        ctx.probe("string document")
    if ch.chance(1, 8, "big document"):
        # Not strings: selectors may take those apart.
        pad = [10 ** ch.between(10, 60, "padding")] * ch.pick((20, 200, 1500), "pads")
        doc = {"a": doc, "pad": pad}
    style = ch.draw(4, "style")
    text = json.dumps(
        doc, indent=(None, None, 2, 1)[style], ensure_ascii=not ch.chance(1, 2, "raw characters")
    )
    if ch.chance(1, 6, "white space around"):
        text = ch.pick((" ", "\n", "\r\n\t"), "before") + text + ch.pick(("\n", "\n\n "), "after")
    if ch.chance(1, 30, "NaN"):
        text = text.replace("1.5", "NaN").replace("2.0", "-Infinity")
    data = text.encode("utf-8", "surrogatepass")
    if ch.chance(1, 7, "damaged document"):
        what = ch.draw(11, "damage")
        if what == 0:
            data = data[: ch.draw(len(data) + 1, "cut at")]
            ctx.fault("document file truncated")
        elif what == 1:
            i = ch.draw(len(data) + 1, "damage at")
            data = data[:i] + ch.pick((b"\xff", b"\xc3", b"}", b",", b"'", b"\x00"), "b") + data[i:]
            ctx.fault("document file corrupted")
        elif what == 2:
            data = b"\xef\xbb\xbf" + data
        elif what == 3:
            data = text.encode(ch.pick(("utf-16", "utf-32", "utf-16-le"), "codec"), "surrogatepass")
        elif what == 4:
            data = ch.pick((b"[", b'{"a":'), "nest") * 200000
        elif what == 5:
            data = b"[" + b"1" * 5000 + b"]"
        elif what == 6:
            data = data + ch.pick((b"x", b"{}", b"\n]", b"\xe2\x80\xa8"), "trailing")
        elif what == 7:
            data = text.encode("latin-1", "replace")
        elif what in (9, 10):
            # Far from every limit: the decoder and the encoder manage.
            depth = ch.pick((1500, 4000), "depth")
            if ch.chance(1, 2, "objects"):
                data = b'{"a":' * depth + b"{}" + b"}" * depth
            else:
                data = b"[" * depth + b"]" * depth
            doc = []
            ctx.probe("deep document")
        else:
            data = ch.pick((b"", b" ", b"\n", b"nul", b"'a'", b"{'a': 1}", b'"\n"'), "garbage")
    return doc, data


def query_text(ch: Choices, doc: Any, opt: Dict[str, bool]) -> str:
    qgen = gen.QueryGen(ch, [doc], [], ext=True, rooty=2, well_typed=not opt["no-type-checks"])
    kind = ch.weighted(
        ((12, "any"), (6, "odd"), (6, "ill-typed"), (4, "bad"), (4, "mutated"), (1, "deep")),
        "query kind",
    )
    if doc == [] and ch.chance(2, 3, "root"):
        return ch.pick(("$", "$", "$ | $", "$[0]", "$.a.a", "$..a"), "shallow query")
    if kind == "deep":
        n = ch.pick((1500, 3000), "depth")
        return ch.pick(
            (
                "$[?@.a == " + "(" * n + "1", "$" + "[?@.a" * n, "$[?" + "!" * n + "@.a]",
                "$[?" + "(" * n + "@.a" + ")" * n + "]", "$" + "[?@" * n + "]" * n,
                "$[?" + "@.a || " * n + "@.a]", "$" + ".a" * 2 * n, "$[" * n,
                "$[?" + "count(" * n + "@.*" + ")" * n + " == 1]",
            ),
            "deep query",
        )
    if kind == "odd":
        return ch.pick(ODD_QUERIES, "odd query")
    if kind == "ill-typed":
        return ch.pick(ILL_TYPED, "ill-typed query")
    if kind == "bad":
        return ch.pick(BAD_QUERIES, "bad query")
    text = qgen.query()
    return qgen.mutated(text) if kind == "mutated" else text


def pointer_text(ch: Choices, doc: Any, opt: Dict[str, bool]) -> str:
    kind = ch.weighted(((6, "any"), (4, "odd"), (2, "bad")), "pointer kind")
    if kind == "odd":
        return ch.pick(ODD_POINTERS, "odd pointer")
    if kind == "bad":
        return ch.pick(BAD_POINTERS, "bad pointer")
    path = ch.pick(c15.paths_of(doc), "pointer path")
    text = "".join("/" + c15.encode(t) for t in path)
    if ch.chance(1, 6, "escape") and text:
        i = ch.between(1, len(text), "escape at")
        c = text[i - 1]
        if c != "/":
            esc = f"\\u{ord(c):04x}" if ord(c) < 0x10000 else c
            if ch.chance(1, 2, "percent"):
                esc = "".join(f"%{b:02X}" for b in c.encode("utf-8", "surrogatepass"))
            text = text[: i - 1] + esc + text[i:]
    if ch.chance(1, 8, "beyond"):
        text += ch.pick(("/nosuch", "/0", "/99", "/-", "/a", "/#a"), "suffix")
    return text


def patch_bytes(ch: Choices, doc: Any, docgen: gen.DocGen, opt: Dict[str, bool]) -> bytes:
    if ch.chance(1, 6, "bad patch"):
        return ch.pick(BAD_PATCHES, "bad patch")
    quiet = Ctx()
    target = doc if isinstance(doc, (dict, list)) else {"a": doc}
    opgen = c15.OpGen(
        ch, quiet, [target], docgen,
        unicode_escape=not opt["no-unicode-escape"], uri_decode=opt["uri-decode"],
    )
    ops = [opgen.op() for _ in range(ch.between(0, 4, "operations"))]
    if doc == [] and ch.chance(2, 3, "root"):
        ops = ch.pick(
            (
                [], [{"op": "test", "path": "/a", "value": 1}], [{"op": "add", "path": "/-", "value": 1}],
                [{"op": "add", "path": "/a/b", "value": 1}],
                [{"op": "copy", "from": "/0", "path": "/-"}], [{"op": "move", "from": "/a", "path": ""}],
            ), "shallow patch",
        )
    for op in ops:
        if ch.chance(1, 8, "odd target"):
            op["path"] = pointer_text(ch, doc, opt)
    if ch.chance(1, 10, "no such operation"):
        ops.append({"op": ch.pick(("test", "remove"), "last"), "path": "/nosuch", "value": 1})
    return json.dumps(
        ops, ensure_ascii=ch.chance(1, 2, "ascii"), indent=ch.pick((None, 2), "indent")
    ).encode("utf-8", "surrogatepass")


# ---------------------------------------------------------------- a process


class Std:
    """The standard streams of one process."""

    def __init__(self, ch: Choices, ctx: Ctx, stdin: bytes) -> None:
        self.out, self.err = bytearray(), bytearray()
        self.plans = {n: Plan(ch, ctx) for n in ("stdin", "stdout", "stderr")}
        raw = SimRaw(bytearray(stdin), self.plans["stdin"], read=True, name="<stdin>")
        self.stdin = io.TextIOWrapper(io.BufferedReader(raw), encoding="utf-8")
        raw = SimRaw(self.out, self.plans["stdout"], write=True, name="<stdout>")
        self.stdout = io.TextIOWrapper(
            io.BufferedWriter(raw), encoding="utf-8", line_buffering=ch.chance(1, 5, "tty")
        )
        raw = SimRaw(self.err, self.plans["stderr"], write=True, name="<stderr>")
        self.stderr = io.TextIOWrapper(
            io.BufferedWriter(raw), encoding="utf-8", errors="backslashreplace",
            line_buffering=True,
        )


KEEP: List[Any] = []


class Bomb:
    """Raise an exception at the n-th executed line of the library."""

    def __init__(self, ctx: Ctx, after: int, exc: type) -> None:
        self.ctx, self.after, self.exc = ctx, after, exc
        self.fired = False
        self.root = package_root()

    def __enter__(self) -> "Bomb":
        self.armed = sys.gettrace() is None
        if self.armed:
            sys.settrace(self._call)
        return self

    def __exit__(self, *args: Any) -> None:
        if self.armed:
            sys.settrace(None)

    def _call(self, frame: Any, event: str, arg: Any) -> Any:
        return self._line if frame.f_code.co_filename.startswith(self.root) else None

    def _line(self, frame: Any, event: str, arg: Any) -> Any:
        if event == "line" and not self.fired:
            self.after -= 1
            if self.after < 0:
                self.fired = True
                name = "allocation failure" if self.exc is MemoryError else "interrupt"
                self.ctx.fault(name)
                code = frame.f_code
                self.ctx.log(name, os.path.basename(code.co_filename), code.co_name)
                raise self.exc
        return self._line


def enter(how: str) -> Any:
    if how == "python -m":
        runpy.run_module("jsonpath", run_name="__main__", alter_sys=True)
        return None
    if how == "script":
        runpy.run_path(jsonpath.cli.__file__, run_name="__main__")
        return None
    # As the console script that comes with the package does.
    return sys.exit(jsonpath.cli.main())


def process(
    how: str, argv: List[str], std: Std, disk: Disk, bomb: Optional[Bomb]
) -> int:
    """Run the command line tool to the end of its process."""
    saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr, builtins.open, io.open)
    code = 0
    try:
        sys.argv = ["json", *argv]
        sys.stdin, sys.stdout, sys.stderr = std.stdin, std.stdout, std.stderr
        builtins.open = io.open = disk.open  # type: ignore
        try:
            with bomb if bomb is not None else contextlib.nullcontext():
                enter(how)
        except SystemExit as err:
            if err.code is None:
                code = 0
            elif isinstance(err.code, int):
                code = err.code & 0xFF
            else:
                code = 1
                with contextlib.suppress(OSError, ValueError):
                    std.stderr.write(f"{err.code}\n")
        except RunTooLong:
            raise
        except BaseException as err:  # noqa: BLE001
            KEEP.append(err)
            code = 130 if isinstance(err, KeyboardInterrupt) else 1
            with contextlib.suppress(OSError, ValueError):
                std.stderr.write("".join(traceback.format_exception(err)))
        for stream in (std.stdout, std.stderr):
            try:
                if not stream.closed:
                    stream.flush()
            except (OSError, ValueError):
                if stream is std.stdout:
                    code = 120
        disk.exit()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr, builtins.open, io.open = saved
    KEEP.append((std, list(disk.opened)))
    disk.opened.clear()
    return code


# ---------------------------------------------------------------- a run


def option(ch: Choices, short_name: str, long_name: str, value: str) -> List[str]:
    """An option and its value, spelt in one of the ways argparse accepts."""
    glued = value.startswith("-") and value != "-"
    style = ch.draw(5, "option style")
    if glued or style == 3:
        return [f"--{long_name}={value}"]
    if style == 0 or not value:
        return ["-" + short_name, value]
    if style == 1:
        return ["--" + long_name, value]
    if style == 2 and not value.startswith("="):
        return [f"-{short_name}{value}"]
    return [f"-{short_name}={value}"]


def run(ch: Choices, ctx: Ctx) -> None:
    docgen = gen.DocGen(ch)
    disk = Disk(ch, ctx)
    for n in range(ch.weighted(((4, 1), (2, 2), (1, 3)), "invocations")):
        if n:
            ctx.probe("second invocation")
        invocation(ch, ctx, docgen, disk, n)


def invocation(  # noqa: PLR0912, PLR0915
    ch: Choices, ctx: Ctx, docgen: gen.DocGen, disk: Disk, n: int
) -> None:
    disk.plans.clear()
    sub = ch.pick(("path", "pointer", "patch"), "sub-command")
    opt = {
        "no-unicode-escape": ch.chance(1, 3, "no unicode escape"),
        "uri-decode": sub != "path" and ch.chance(1, 3, "uri decode"),
        "no-type-checks": sub == "path" and ch.chance(1, 3, "no type checks"),
    }
    pretty = ch.chance(1, 3, "pretty")
    debug = ch.chance(1, 6, "debug")
    doc, data = documents(ch, ctx, docgen)

    # The expression.
    expr: Any
    if sub == "path":
        expr = query_text(ch, doc, opt)
    elif sub == "pointer":
        expr = pointer_text(ch, doc, opt)
    else:
        expr = patch_bytes(ch, doc, docgen, opt)
    expr_from = "expression file"
    expr_data = b""
    if sub != "patch":
        try:
            expr_data = expr.encode("utf-8")
        except UnicodeEncodeError:
            expr_data = b""
        fits = expr == expr.strip() and "\r" not in expr and expr_data
        if "\x00" in expr:
            expr = expr.replace("\x00", "")
            fits = ""
        if not fits or ch.chance(1, 2, "inline"):
            expr_from = "inline"
        else:
            expr_data += ch.pick((b"", b"\n", b"\n", b"\r\n", b" \n\n"), "final newline")
            if ch.chance(1, 25, "undecodable expression"):
                expr_data += b"\xff"
                expr = None
    else:
        expr_data = expr

    # Where everything comes from and goes to.
    stdin = b""
    expr_path = doc_path = out_path = None
    if expr_from != "inline":
        if ch.chance(1, 8, "expression on stdin"):
            expr_from = "expression on stdin"
            stdin = expr_data
        else:
            expr_path = disk.put(f"expr{n}", expr_data)
    doc_from = ch.weighted(
        ((3, "document file"), (2, "document on stdin"), (1, "document - ")), "document from"
    )
    if expr_from == "expression on stdin":
        doc_from = "document file"
    if doc_from == "document file":
        doc_path = disk.put(ch.pick((f"doc{n}.json", "a b.json", "é"), "document name"), data)
    else:
        stdin = data
    out_to = ch.weighted(((3, "stdout"), (3, "output file"), (1, "output -")), "output to")
    if out_to == "output file":
        out_path = Disk.ROOT + ch.pick(("out.json", "o"), "output name")
        if ch.chance(1, 2, "output existed"):
            ctx.probe("output file existed")
            disk.put(out_path[len(Disk.ROOT) :], b"[" + b'"old contents", ' * 100 + b"0]")
    out_before = bytes(disk.files.get(out_path, b"")) if out_path else b""

    # The command line.
    before: List[List[str]] = []
    after: List[List[str]] = []
    if pretty:
        before.append([ch.pick(("--pretty", "--pre"), "spelling")])
    if debug:
        before.append(["--debug"])
    if opt["no-unicode-escape"]:
        before.append([ch.pick(("--no-unicode-escape", "--no-u"), "spelling")])
    if sub == "patch":
        after.append([expr_path or "-"])
    elif expr_from == "inline":
        name = ("q", "query") if sub == "path" else ("p", "pointer")
        after.append(option(ch, *name, expr))
    else:
        long_name = "path-file" if sub == "path" else "pointer-file"
        after.append(option(ch, "r", long_name, expr_path or "-"))
    if doc_from != "document on stdin":
        after.append(option(ch, "f", "file", doc_path or "-"))
    if out_to != "stdout":
        after.append(option(ch, "o", "output", out_path or "-"))
    if opt["uri-decode"]:
        after.append([ch.pick(("-u", "--uri-decode"), "spelling")])
    if opt["no-type-checks"]:
        after.append([ch.pick(("--no-type-checks", "--no-t"), "spelling")])
    ch.shuffle(before, "order")
    ch.shuffle(after, "order")
    argv = [a for group in before for a in group] + [sub]
    argv += [a for group in after for a in group]
    how = ch.weighted(((6, "main()"), (3, "python -m"), (1, "script")), "entry")

    # The reference.
    text_mode = doc_from == "document on stdin"
    if expr is None:
        ref = ("rejected", "expression")
    else:
        ref = reference(sub, expr, data, text_mode, opt, pretty)
        if ref[0] == "ok":
            other = {k: not v for k, v in opt.items()}
            if reference(sub, expr, data, text_mode, other, pretty) != ref:
                ctx.probe("options matter")

    # Faults.
    std = Std(ch, ctx, stdin)
    for path in (expr_path, doc_path, out_path):
        if path:
            disk.plan(path).harmless()
    std.plans["stdin"].harmless()
    std.plans["stdout"].harmless()
    std.plans["stderr"].harmless()
    fatal: List[Plan] = []
    bomb: Optional[Bomb] = None
    doc_plan = disk.plan(doc_path) if doc_path else std.plans["stdin"]
    expr_plan = (
        disk.plan(expr_path) if expr_path
        else std.plans["stdin"] if expr_from == "expression on stdin" else None
    )
    out_plan = disk.plan(out_path) if out_path else std.plans["stdout"]
    missing = False
    if ch.chance(1, 4, "fatal fault"):
        what = ch.weighted(
            ((3, "document read"), (2, "expression read"), (5, "output write"),
             (1, "stderr write"), (1, "open"), (1, "missing"), (3, "bomb")), "which fault"
        )
        if what == "document read":
            doc_plan.read_error_at = ch.draw(len(data) + 1, "at")
            fatal.append(doc_plan)
        elif what == "expression read" and expr_plan is not None:
            expr_plan.read_error_at = ch.draw(len(expr_data) + 1, "at")
            fatal.append(expr_plan)
        elif what == "output write":
            size = len(ref[1]) if ref[0] == "ok" else 10
            where_at = ch.draw(3, "where")
            out_plan.write_error_at = (
                0 if where_at == 0 else ch.draw(size + 1, "at") if where_at == 1
                else max(0, size - ch.draw(9, "before the end"))
            )
            out_plan.write_errno = ch.pick((errno.EIO, errno.ENOSPC, errno.EPIPE), "errno")
            fatal.append(out_plan)
        elif what == "stderr write":
            std.plans["stderr"].write_error_at = ch.draw(30, "at")
            std.plans["stderr"].write_errno = ch.pick((errno.EIO, errno.EPIPE), "errno")
            fatal.append(std.plans["stderr"])
        elif what in ("open", "missing"):
            paths = [p for p in (expr_path, doc_path, out_path) if p]
            if paths:
                p = ch.pick(paths, "which file")
                if what == "missing" and p != out_path:
                    del disk.files[p]
                    missing = True
                    ctx.probe("missing file")
                    ctx.fault("missing file")
                else:
                    disk.plan(p).open_errno = ch.pick(
                        (errno.EACCES, errno.EMFILE, errno.EIO), "errno"
                    )
                    fatal.append(disk.plan(p))
        elif what == "bomb":
            after_lines = ch.pick((1, 8, 40, 100, 400, 2000), "scale")
            bomb = Bomb(
                ctx, ch.draw(after_lines, "lines"),
                ch.pick((KeyboardInterrupt, MemoryError), "bomb"),
            )

    for name in (sub, expr_from, doc_from, out_to, how):
        ctx.probe(name)
    for name, on in (("pretty", pretty), ("debug", debug), *opt.items()):
        if on:
            ctx.probe(name.replace("-", " "))
    line = " ".join(repr(a) for a in argv)
    if not ctx.case:
        ctx.case = short(line, 300)
    ctx.log("command", how, line)
    ctx.log("document", short(repr(data), 2000))
    ctx.log("expression", short(repr(expr), 2000))
    ctx.log("reference", ref[0], short(ref[1], 2000))

    code = process(how, argv, std, disk, bomb)

    stdout, stderr = bytes(std.out), bytes(std.err).decode("utf-8", "replace")
    written = bytes(disk.files.get(out_path, b"")) if out_path else b""
    fired = [f for p in fatal for f in p.fired]
    ctx.sched(how, fired, len(stdout), len(written), code)
    ctx.log("exit", code, "stdout", len(stdout), short(repr(stdout), 1000))
    ctx.log("file", len(written), short(repr(written), 1000))
    ctx.log("stderr", short(stderr.splitlines()[-1] if stderr.strip() else "", 500))
    ctx.count("invocations")
    ctx.steps += 1

    def violation(kind: str, why: str) -> Violation:
        return Violation(
            kind,
            f"{why}\njson {line}   ({how})\nexpression {short(repr(expr), 600)}\n"
            f"document {short(repr(data), 600)}\nthe library: {ref[0]} {short(ref[1], 600)}\n"
            f"exit status {code}\nstdout {short(repr(stdout), 600)}\n"
            + (f"{out_path} {short(repr(written), 600)}\n" if out_path else "")
            + f"stderr {short(stderr, 900)}"
            + (f"\nfaults {fired}" if fired else ""),
        )

    exact = ref[0] == "ok" and (
        (written == ref[1].encode() and not stdout)
        if out_path
        else stdout == ref[1].encode()
    )
    if fired or missing or (bomb is not None and bomb.fired):
        ctx.probe("fatal fault fired")
        ctx.nontrivial = True
        # Not noticing the loss of a message is no loss.
        only_stderr = fatal == [std.plans["stderr"]]
        if code == 0 and not exact:
            raise violation("fault-unnoticed", "exit status 0 without the complete output")
        if only_stderr and ref[0] == "rejected" and code == 0:
            raise violation("status", "a rejected input has exit status 0")
        ctx.count("invocations with a fatal fault")
        return

    if ref[0] == "ok":
        ctx.probe("accepted")
        if len(ref[1]) > 8192:
            ctx.probe("big output")
        if ref[1] in ("[]", "{}", "null"):
            ctx.probe("empty result")
        else:
            ctx.nontrivial = True
        if code != 0:
            raise violation("status", "an accepted input has a non-zero exit status")
        if not exact:
            raise violation("output", "the output is not the library's result")
        return

    if ref[0] == "unprintable":
        ctx.probe("unprintable")
        if code == 0:
            ctx.count("printed what Python's encoder doesn't")
            return
    if code == 0:
        raise violation("status", "a rejected input has exit status 0")
    if stdout or written not in (b"", out_before):
        raise violation("output", "a rejected input has output")
    if ref[0] == "internal":
        ctx.count("library raised " + ref[1])
        return
    ctx.nontrivial = True
    ctx.probe("rejected")
    why = ref[1] if ref[1] in ("expression", "document", "patch file", "nesting") else "resolution"
    ctx.probe("rejected: " + why)
    if code != 1:
        raise violation("status", "a rejected input has an exit status other than 1")
    if debug:
        ctx.probe("rejected under debug")
        if not stderr.strip():
            raise violation("message", "a rejected input has no message")
        return
    body = stderr[:-1] if stderr.endswith("\n") else stderr
    if not body.strip() or "\n" in body or "\r" in body:
        raise violation("message", "not a one-line message")
    if "Traceback (most recent call last)" in stderr:
        raise violation("message", "a traceback")
