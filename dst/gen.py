"""Workload generators: JSON documents and queries that suit them.

Everything is drawn from the run's choices; a choice of zero is the simplest
alternative, so shrinking leads to small documents and short queries.
"""

from __future__ import annotations

import json
import re
from typing import Any
from typing import Dict
from typing import List
from typing import Optional
from typing import Tuple

from .core import Choices

NAMES = ("a", "b", "c", "d", "x", "k1", "1", "0", "d e", "", "é", "日本", "o'q", 'd"q',
         "b\\s", "s/l", "t~l", "A", "length", "-1", "\u2028", "\U0001f600", "tab\t",
         "m~1n", "%41", "a+b", "~0/~1")
PLAIN_NAMES = ("a", "b", "c", "d", "x", "k1", "é", "日本")
STRINGS = ("a", "b", "ab", "x", "", "1", "true", "aé", "日本", "a b", "null", "abc", "B")
SCALARS = (1, 2, 0, True, False, None, "a", "b", 1.0, 1.5, -1, "ab", "", "1", 3, 2.0,
           "aé", 10, "x", 0.0, -2.5, 1e3, "日本", 0.1, 12345678901234567890)
LITERALS = (1, 2, 0, True, False, None, "a", "b", 1.0, 1.5, -1, "ab", "", "1", 3)


# ---------------------------------------------------------------- documents


class DocGen:
    """Documents, with per-run (swarm) shape parameters."""

    def __init__(
        self, ch: Choices, *, odd_names: Optional[bool] = None, widest: int = 33
    ) -> None:
        self.ch = ch
        self.widest = widest
        self.max_depth = ch.pick((2, 3, 3, 4, 1), "doc depth")
        self.width = ch.pick((2, 3, 4, 5, 3, 1), "doc width")
        if odd_names is None:
            odd_names = ch.chance(1, 2, "odd names")
        pool = NAMES if odd_names else PLAIN_NAMES
        n = ch.between(2, 6, "names")
        self.names = list(pool[:2]) + [ch.pick(pool, "name") for _ in range(n)]
        self.records = ch.chance(1, 2, "records")
        self.strings = ch.chance(1, 3, "stringy")
        self.pool: List[Any] = []

    def confuse(self) -> None:
        """Only use a few values from now on, ones that could be mixed up."""
        ch = self.ch
        for _ in range(ch.between(1, 2, "pool")):
            v = ch.pick((1, 0, 1, "a", [1], [], 0, None, {"a": 1}, "ab", "1", [[]]), "pool")
            self.pool.append(v)
            for _ in range(ch.between(1, 3, "pool near")):
                v = near(ch, v)
                self.pool.append(v)

    def scalar(self) -> Any:
        if self.pool:
            return json.loads(json.dumps(self.ch.pick(self.pool, "pool")))
        if self.strings and self.ch.chance(1, 2, "string"):
            return self.ch.pick(STRINGS, "string")
        return self.ch.pick(SCALARS, "scalar")

    def size(self) -> int:
        if self.ch.chance(1, 8, "empty"):
            return 0
        return self.ch.between(1, self.width, "len")

    def value(self, depth: int) -> Any:
        ch = self.ch
        if depth <= 0:
            return self.scalar()
        kind = ch.weighted(((3, "scalar"), (3, "object"), (3, "array"), (2, "records")),
                           "value kind")
        if kind == "scalar":
            return self.scalar()
        if kind == "object":
            return self.obj(depth)
        if kind == "array" or not self.records:
            return [self.value(depth - 1) for _ in range(self.size())]
        names = [ch.pick(self.names, "field") for _ in range(ch.between(1, 3, "fields"))]
        out = []
        for _ in range(ch.between(1, self.width, "rows")):
            out.append(
                {n: self.value(depth - 2) for n in names if not ch.chance(1, 5, "absent")}
            )
        return out

    def obj(self, depth: int) -> Dict[str, Any]:
        ch = self.ch
        out: Dict[str, Any] = {}
        for _ in range(self.size()):
            out[ch.pick(self.names, "key")] = self.value(depth - 1)
        return out

    def wide(self) -> Any:
        """A container with many more items than the others."""
        ch = self.ch
        n = min(ch.pick((6, 10, 17, 33), "wide"), self.widest)
        kind = ch.draw(4, "wide kind")
        if kind == 0:
            return [ch.draw(n, "int") for _ in range(n)]
        if kind == 1:
            return [self.scalar() for _ in range(n)]
        if kind == 2:
            return {f"{ch.pick(self.names, 'key')}{i}": self.scalar() for i in range(n)}
        return [{"a": ch.draw(n, "int"), "b": self.scalar()} for _ in range(n)]

    def document(self) -> Any:
        doc = self._document()
        if self.ch.chance(1, 10, "wide member"):
            if isinstance(doc, dict):
                doc[self.ch.pick(self.names, "wide key")] = self.wide()
            elif isinstance(doc, list):
                doc.insert(self.ch.draw(len(doc) + 1, "wide at"), self.wide())
        if self.ch.chance(1, 3, "echo"):
            self.echo(doc)
        return doc

    def echo(self, doc: Any) -> None:
        """Repeat parts of a document elsewhere in it, or nearly so."""
        ch = self.ch
        spots: List[Any] = []

        def walk(v: Any) -> None:
            for x in v.values() if isinstance(v, dict) else v:
                spots.append(x)
                if isinstance(x, (dict, list)):
                    holders.append(x)
                    walk(x)

        if not isinstance(doc, (dict, list)):
            return
        holders: List[Any] = [doc]
        walk(doc)
        if not spots or len(spots) > 120:
            return
        for _ in range(ch.between(1, 3, "echoes")):
            v = json.loads(json.dumps(ch.pick(spots, "echo of")))
            if ch.chance(1, 2, "nearly"):
                v = near(ch, v)
            where = ch.pick(holders, "echo in")
            if isinstance(where, list):
                where.insert(ch.draw(len(where) + 1, "echo at"), v)
            else:
                where[ch.pick(self.names, "echo key")] = v

    def _document(self) -> Any:
        ch = self.ch
        kind = ch.weighted(((12, "object"), (8, "array"), (1, "any")), "root kind")
        if kind == "object":
            doc: Any = self.obj(self.max_depth)
            if self.records and "a" not in doc:
                doc["a"] = self.value(self.max_depth - 1)
            return doc
        if kind == "array":
            return [
                self.value(self.max_depth - 1)
                for _ in range(ch.between(1, self.width, "len"))
            ]
        return self.value(self.max_depth)


def near(ch: Choices, v: Any) -> Any:
    """A value that could be mistaken for `v`."""
    if isinstance(v, bool):
        return ch.pick((int(v), not v, float(v), str(v).lower()), "near bool")
    if isinstance(v, (int, float)):
        if v in (0, 1):
            return ch.pick((bool(v), float(v), bool(v), str(v)), "near number")
        return ch.pick((float(v), str(v), -v, v + 1), "near number")
    if v is None:
        return ch.pick((False, 0, "", "null", [], {}), "near null")
    if isinstance(v, str):
        return ch.pick((v.upper(), v + " ", [v], v[:-1]), "near string")
    if isinstance(v, list):
        if not v:
            return ch.pick(({}, None, "", [None]), "near empty")
        i = ch.draw(len(v), "near item")
        what = ch.draw(4, "near list")
        if what == 0:
            return v[:i] + [near(ch, v[i])] + v[i + 1 :]
        if what == 1:
            return v[::-1]
        return v[:i] + v[i + 1 :] if what == 2 else v + [v[i]]
    if not v:
        return []
    k = ch.pick(list(v), "near member")
    what = ch.draw(5, "near object")
    if what == 4:
        return {k + "'" if n == k else n: x for n, x in v.items()}
    if what == 0:
        return {**v, k: near(ch, v[k])}
    if what == 1:
        return dict(reversed(list(v.items())))
    if what == 2:
        return {n: x for n, x in v.items() if n != k}
    return {**v, k + "'": v[k]}


def leaf_near(ch: Choices, v: Any) -> Any:
    """A copy of `v` in which one part, somewhere inside, could be mistaken."""
    if isinstance(v, dict) and v and ch.chance(3, 4, "into object"):
        k = ch.pick(list(v), "member")
        return {n: leaf_near(ch, x) if n == k else clone(x) for n, x in v.items()}
    if isinstance(v, list) and v and ch.chance(3, 4, "into array"):
        i = ch.draw(len(v), "item")
        return [leaf_near(ch, x) if i == j else clone(x) for j, x in enumerate(v)]
    return clone(near(ch, v))


def clone(v: Any) -> Any:
    return json.loads(json.dumps(v))


def mirrored(ch: Choices, docs: DocGen) -> Dict[str, Any]:
    """Lists of values that are equal or nearly so, to be intersected."""
    n = ch.pick((2, 1, 3, 5, 9, 17, 40), "mirror size")
    left: List[Any] = []
    for _ in range(n):
        if left and ch.chance(1, 6, "again"):
            left.append(clone(ch.pick(left, "which")))
        elif ch.chance(1, 2, "family"):
            left.append(clone(ch.pick(ch.pick(FAMILIES, "family"), "family value")))
        else:
            left.append(docs.value(ch.pick((1, 2, 0), "depth")))
    out: Dict[str, Any] = {"l": left}
    for name in ("r", "s")[: ch.between(1, 2, "mirrors")]:
        copy: List[Any] = []
        for x in left:
            how = ch.draw(5, "mirror")
            if how < 2:
                copy.append(leaf_near(ch, x))
            elif how == 2:
                copy.append(clone(x))
            elif how == 3 and isinstance(x, dict):
                copy.append(clone(dict(reversed(list(x.items())))))
        if ch.chance(1, 3, "turned"):
            copy.reverse()
        out[name] = copy
    if ch.chance(1, 4, "as object"):
        out = {k: {f"k{i}": x for i, x in enumerate(v)} for k, v in out.items()}
    return out


def mirror_query(
    ch: Choices, doc: Dict[str, Any], union: str = "|", intersection: str = "&"
) -> Tuple[List[str], List[str]]:
    """(operands, operators) of a compound query on a mirrored document."""
    names = list(doc)
    forms = (
        "$.{}.*", "$.{}.*", "$.{}[*]", "$.{}..*", "$.{}[?@ != 'zz']", "$.{}[0]", "$..{}",
    )
    parts: List[str] = []
    ops: List[str] = []
    for i in range(ch.between(2, 4, "mirror operands")):
        name = names[i % 2] if i < 2 else ch.pick(names, "mirror name")
        parts.append(ch.pick(forms, "mirror form").format(name))
        if i:
            ops.append(intersection if ch.chance(3, 4, "intersect") else union)
    if ch.chance(1, 4, "the other way round"):
        parts.reverse()
    return parts, ops


def sibling(ch: Choices, doc: Any, docs: DocGen, nearly: bool = False) -> Any:
    """A document of about the same shape with a few values changed."""
    out = json.loads(json.dumps(doc))
    spots: List[Tuple[Any, Any]] = []

    def walk(v: Any) -> None:
        items = v.items() if isinstance(v, dict) else enumerate(v)
        for k, x in list(items):
            spots.append((v, k))
            if isinstance(x, (dict, list)):
                walk(x)

    if isinstance(out, (dict, list)):
        walk(out)
    if not spots:
        return docs.document()
    for _ in range(ch.between(1, 4, "edits")):
        parent, key = ch.pick(spots, "edit")
        if isinstance(parent, dict) and key not in parent:
            continue
        if isinstance(parent, list) and key >= len(parent):
            continue
        what = 4 if nearly and ch.chance(2, 3, "nearly") else ch.draw(8, "edit kind")
        if what < 3:
            parent[key] = docs.value(ch.draw(2, "edit depth"))
        elif what < 5:
            parent[key] = near(ch, parent[key])
        elif what == 5:
            del parent[key]
        elif isinstance(parent, list):
            parent.insert(key + ch.draw(2, "edit at"), docs.value(ch.draw(2, "edit depth")))
        else:
            parent[ch.pick(docs.names, "edit name")] = docs.value(ch.draw(2, "edit depth"))
    return out


def share(ch: Choices, value: Any) -> Any:
    """The same JSON value with equal containers in it being one and the same object.

    Programs that build their documents often have such values.
    """
    known: Dict[str, Any] = {}
    often = ch.pick((1, 2), "share how often")

    def walk(v: Any) -> Any:
        if not isinstance(v, (dict, list)):
            return v
        key = json.dumps(v)
        if key in known and ch.chance(1, often, "share"):
            return known[key]
        if isinstance(v, dict):
            out: Any = {k: walk(x) for k, x in v.items()}
        else:
            out = [walk(x) for x in v]
        known[key] = out
        return out

    return walk(value)


_TOKEN = re.compile(
    r"""(?<![\w'"])(?:true|false|null|-?\d+(?:\.\d+)?|'[^'"\\]*'|"[^'"\\]*")(?![\w'"])
    |(?:==|!=|<=|>=|<|>)|\b(?:length|count|value|match|search|typeof|digest|digests
    |untyped|nodes|twin|odd)\b|[$@_^]|(?<=\.)[A-Za-z]+\b""",
    re.X,
)
_KIN = {
    "true": ("1", "false"), "false": ("0", "true", "null"), "null": ("0", "false"),
    "1": ("true", "1.0", "'1'", "0"), "0": ("false", "null", "0.0", "1"),
    "==": ("!=", "<=", ">="), "!=": ("==", "<", ">"), "<": ("<=", ">"),
    ">": (">=", "<"), "<=": ("<", "=="), ">=": (">", "=="), "length": ("count", "value"),
    "count": ("length",), "value": ("length", "typeof"), "match": ("search",),
    "search": ("match",), "typeof": ("value",), "digest": ("untyped",),
    "digests": ("nodes", "count"), "untyped": ("nodes",), "nodes": ("untyped",),
    "twin": ("match",), "odd": ("digests",), "$": ("@", "_", "^"), "@": ("$", "_"),
    "_": ("$", "@"), "^": ("$",),
}


def kin(ch: Choices, text: str) -> str:
    """A query that differs from another one in a single token, which looks alike."""
    spots = list(_TOKEN.finditer(text))
    if not spots:
        return text
    m = ch.pick(spots, "token")
    old = m.group()
    if old in _KIN:
        new = ch.pick(_KIN[old], "kin")
    elif old[0] in "'\"":
        body = old[1:-1]
        new = ch.pick(
            (body or "0", old[0] + body[:-1] + old[0], old[0] + body.swapcase() + old[0],
             old[0] + body + " " + old[0], old[0] + " " + body + old[0]),
            "kin",
        )
    elif old == "-1":
        new = ch.pick(("-2", "1", "0"), "kin")  # hash(-1) == hash(-2)
    elif old[0].isdigit() or old[0] == "-":
        new = ch.pick((f"'{old}'", f"{old}.0", f"-{old}"), "kin")
    else:
        new = old.swapcase()
    return text[: m.start()] + new + text[m.end() :]


# ---------------------------------------------------------------- queries

_SHORT = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
_RESERVED = frozenset(
    "and or not in contains true True false False nil Nil null Null none None "
    "undefined missing".split()
)


def quoted(ch: Choices, name: str) -> str:
    if ch.chance(1, 3, "quotes"):
        return json.dumps(name, ensure_ascii=ch.chance(1, 2, "ascii"))
    body = json.dumps(name, ensure_ascii=False)[1:-1].replace('\\"', '"')
    return "'" + body.replace("'", "\\'") + "'"


def plain_name(name: str) -> bool:
    return bool(name) and all(
        c in _SHORT or 0x7F < ord(c) < 0xFFFF and ord(c) != 0x2028 for c in name
    ) and name not in _RESERVED


class QueryGen:
    """Queries in standard and extended syntax, aimed at given documents."""

    def __init__(
        self,
        ch: Choices,
        docs: List[Any],
        contexts: List[Any],
        *,
        ext: bool = True,
        rooty: int = 3,
        well_typed: bool = True,
        custom: bool = False,
    ) -> None:
        self.ch = ch
        self.custom = custom  # the functions of data.FunctionsEnv too
        self.docs = docs
        self.contexts = contexts
        self.ext = ext
        self.rooty = rooty  # weight of root- and context-rooted operands
        # Now and then most operands come from the filter context.
        self.contexty = rooty
        if contexts and ext:
            self.contexty = ch.pick((rooty, rooty, 12), "contexty")
        self.well_typed = well_typed
        self.max_segments = ch.pick((1, 2, 2, 3, 3, 4), "segments")
        self.filters = ch.between(1, 6, "filter weight")
        self.slices = ch.pick((1, 1, 4), "slice weight")
        self.nesting = ch.between(1, 3, "filter nesting")
        self.blanks = ch.chance(1, 6, "blanks")
        self.names = self._names()

    def _names(self) -> List[str]:
        out: List[str] = []

        def walk(v: Any, depth: int) -> None:
            if depth > 6 or len(out) > 60:
                return
            if isinstance(v, dict):
                for k, x in v.items():
                    if k not in out:
                        out.append(k)
                    walk(x, depth + 1)
            elif isinstance(v, list):
                for x in v:
                    walk(x, depth + 1)

        for d in self.docs:
            walk(d, 0)
        return out or ["a"]

    # -- helpers

    def _children(self, v: Any) -> List[Any]:
        if isinstance(v, dict):
            return list(v.values())
        if isinstance(v, list):
            return v
        return []

    def _spread(self, samples: List[Any]) -> List[Any]:
        out: List[Any] = []
        for s in samples:
            out.extend(self._children(s))
            if len(out) > 12:
                break
        return out[:12]

    def _name_for(self, samples: List[Any]) -> Tuple[str, List[Any]]:
        ch = self.ch
        dicts = [s for s in samples if isinstance(s, dict) and s]
        if dicts and not ch.chance(1, 12, "wrong name"):
            d = ch.pick(dicts, "sample")
            name = ch.pick(list(d), "name")
        else:
            name = ch.pick(self.names, "name")
        return name, [d[name] for d in dicts if name in d]

    # -- selectors and segments

    def selector(self, samples: List[Any], depth: int) -> Tuple[str, List[Any]]:
        ch = self.ch
        lists = [s for s in samples if isinstance(s, list)]
        dicts = [s for s in samples if isinstance(s, dict)]
        big = 9
        numbered = any(k in d for d in dicts for k in ("0", "1", "-1"))
        table = [(3, "wild"), (big if dicts else 1, "name"),
                 (big if lists else 4 if numbered and self.ext else 1, "index"),
                 ((5 if lists else 1) * self.slices, "slice")]
        if depth > 0:
            fit = any(isinstance(c, (dict, list)) for c in self._spread(samples))
            table.append((4 * self.filters if fit else self.filters, "filter"))
        if self.ext:
            table.append((1, "keys"))
            table.append((1, "bare"))
        kind = ch.weighted(table, "selector")
        if kind == "name":
            name, nxt = self._name_for(samples)
            return quoted(ch, name), nxt
        if kind == "bare":
            name, nxt = self._name_for(samples)
            return (name if plain_name(name) else quoted(ch, name)), nxt
        if kind == "index":
            longest = max([len(s) for s in lists], default=0)
            keys = [k for d in dicts for k in d if k.lstrip("-").isdecimal()]
            if keys and (not longest or ch.chance(1, 3, "index of a member")):
                k = ch.pick(keys, "index-like name")
                return k, [d[k] for d in dicts if k in d]
            if longest and not ch.chance(1, 8, "out of range"):
                i = ch.draw(longest, "index")
                if ch.chance(1, 3, "negative"):
                    i = -1 - i
            else:
                i = ch.pick((0, 1, -1, 2, -2, 3, 9), "index")
            nxt = []
            for s in lists:
                if -len(s) <= i < len(s):
                    nxt.append(s[i])
            return str(i), nxt
        if kind == "slice":
            return self.slice(), self._spread(lists)
        if kind == "wild":
            return "*", self._spread(samples)
        if kind == "keys":
            return "~", list(self.names[:3])
        cands = self._spread(samples)
        return self.filter(cands, depth - 1), cands

    def slice(self) -> str:
        ch = self.ch
        start = ch.pick(("", "", "0", "1", "-1", "-2", "2", "3"), "start")
        stop = ch.pick(("", "", "2", "3", "9", "-1", "1", "0"), "stop")
        text = f"{start}:{stop}"
        if ch.chance(1, 3, "step"):
            text += ":" + ch.pick(("-1", "", "1", "2", "-2", "0"), "step")
        return text

    def segment(self, samples: List[Any], depth: int) -> Tuple[str, List[Any]]:
        ch = self.ch
        dicts = [s for s in samples if isinstance(s, dict)]
        kind = ch.weighted(
            ((4 if dicts else 1, "dot"), (8, "bracket"), (3, "list"), (4, "descend"),
             (2, "dotwild"), (1 if self.ext and dicts else 0, "dotkeys"),
             (self.slices if self.ext else 0, "bare slice")),
            "segment",
        )
        if kind == "dot":
            name, nxt = self._name_for(samples)
            if plain_name(name):
                return "." + name, nxt
            return f"[{quoted(ch, name)}]", nxt
        if kind == "bare slice":
            dots = ch.pick(("", ".."), "dots")
            return dots + self.slice(), self._spread(samples)
        if kind == "dotwild":
            return ".*", self._spread(samples)
        if kind == "dotkeys":
            return ".~", list(self.names[:3])
        if kind == "bracket":
            text, nxt = self.selector(samples, depth)
            pad = ch.pick(("", "", "", " ", "\n", "\t "), "blank") if self.blanks else ""
            return f"[{pad}{text}{pad}]", nxt
        if kind == "list":
            texts, nxts = [], []
            for _ in range(ch.between(2, 3, "list length")):
                text, nxt = self.selector(samples, depth)
                texts.append(text)
                nxts.extend(nxt)
            return "[" + ch.pick((", ", ","), "sep").join(texts) + "]", nxts[:12]
        deep = samples + self._spread(samples)
        deep += self._spread(deep)
        deep = [s for s in deep if isinstance(s, (dict, list))][:12] or samples
        if ch.chance(1, 3, "descend wild"):
            return "..*", self._spread(deep)
        name, nxt = self._name_for(deep)
        if plain_name(name) and ch.chance(1, 2, "descend name"):
            return ".." + name, nxt
        text, nxt = self.selector(deep, depth)
        return f"..[{text}]", nxt

    def segments(self, samples: List[Any], depth: int, n: int) -> Tuple[str, List[Any]]:
        out = ""
        for _ in range(n):
            text, nxt = self.segment(samples, depth)
            out += text
            samples = nxt or samples
        return out, samples

    # -- singular and other embedded queries

    def singular(self, samples: List[Any], max_len: int = 2) -> Tuple[str, List[Any]]:
        ch = self.ch
        out = ""
        for _ in range(ch.between(0, max_len, "singular length")):
            lists = [s for s in samples if isinstance(s, list) and s]
            dicts = [s for s in samples if isinstance(s, dict) and s]
            if lists and (not dicts or ch.chance(1, 2, "index")):
                i = ch.pick((0, 1, -1, 2), "index")
                out += f"[{i}]"
                samples = [s[i] for s in lists if -len(s) <= i < len(s)]
            else:
                name, samples = self._name_for(samples)
                if plain_name(name) and not ch.chance(1, 4, "bracketed"):
                    out += "." + name
                else:
                    out += f"[{quoted(ch, name)}]"
        return out, samples

    def origin(self, cands: List[Any]) -> Tuple[str, List[Any]]:
        """An identifier an embedded query starts with, and samples of it."""
        table = [(6, "@"), (self.rooty, "$")]
        if self.ext and self.contexts:
            table.append((self.contexty, "_"))
        elif self.ext and self.rooty > 1:
            table.append((1, "_"))
        if self.ext:
            table.append((1 if self.rooty > 1 else 0, "^"))
        ident = self.ch.weighted(table, "origin")
        if ident == "@":
            return ident, cands
        if ident == "_":
            return ident, self.contexts or [{}]
        if ident == "^":
            return ident, [[d] for d in self.docs]
        return ident, self.docs

    def embedded(self, cands: List[Any], depth: int) -> str:
        ident, samples = self.origin(cands)
        n = self.ch.between(0, 2, "embedded length")
        text, _ = self.segments(samples, min(depth, 1), n)
        return ident + text

    # -- filters

    def filter(self, cands: List[Any], depth: int) -> str:
        return "?" + self.ch.pick(("", " "), "space") + self.logical(
            cands, depth, self.nesting
        )

    def literal(self, v: Any) -> str:
        ch = self.ch
        if isinstance(v, str):
            return quoted(ch, v)
        if self.ext and v is None:
            return ch.pick(("null", "nil", "none", "Null"), "null")
        if self.ext and isinstance(v, bool):
            return ch.pick((json.dumps(v), str(v)), "bool")
        if isinstance(v, (int, float)):
            return json.dumps(v)
        return json.dumps(v)

    def _some_literal(self, samples: List[Any], item: bool = False) -> str:
        ch = self.ch
        lists = [
            s for s in samples
            if isinstance(s, list) and s and not any(isinstance(x, (dict, list)) for x in s)
        ]
        if self.ext and lists and not item and ch.chance(1, 4, "list literal"):
            return "[" + ", ".join(
                self.literal(x) for x in ch.pick(lists, "sample list")[:8]
            ) + "]"
        scal = [
            s
            for s in samples
            if isinstance(s, (str, bool, int, float)) or s is None
        ]
        if scal and not ch.chance(1, 5, "other literal"):
            return self.literal(ch.pick(scal, "sample literal"))
        return self.literal(ch.pick(LITERALS, "literal"))

    def comparable(
        self, cands: List[Any], depth: int, *, query: bool = False
    ) -> Tuple[str, List[Any]]:
        ch = self.ch
        table = [(8, "singular"), (4, "function")]
        if not query:
            table.append((4, "literal"))
        if self.ext:
            table.append((1, "key"))
            if not query:
                table.append((1, "undefined"))
        if not self.well_typed:
            table.append((1, "any query"))
        kind = ch.weighted(table, "comparable")
        if kind == "singular":
            ident, samples = self.origin(cands)
            text, samples = self.singular(samples)
            return ident + text, samples
        if kind == "literal":
            return self._some_literal(cands + self._spread(cands)), []
        if kind == "key":
            return "#", list(self.names) + [0, 1]
        if kind == "undefined":
            return ch.pick(("undefined", "missing"), "undefined"), []
        if kind == "any query":
            return self.embedded(cands, depth), []
        return self.value_function(cands, depth), [0, 1, 2, 3]

    def value_function(self, cands: List[Any], depth: int) -> str:
        ch = self.ch
        kind = ch.weighted(
            ((3, "length"), (3, "count"), (2, "value"), (1 if self.ext else 0, "typeof"),
             *(((3, "digest"), (4, "digests"), (4, "untyped"), (3, "nodes"),
                (1, "picky"))
               if self.custom else ())),
            "function",
        )
        if kind in ("digest", "digests", "picky"):
            return f"{kind}({self.argument(cands, depth, nodes=kind == 'digests')})"
        if kind in ("untyped", "nodes"):
            args = [
                self.argument(cands, depth, nodes=ch.chance(1, 2, "nodes"))
                for _ in range(ch.between(1, 3, "arguments"))
            ]
            return f"{kind}({', '.join(args)})"
        if kind == "length":
            if ch.chance(1, 6, "literal argument"):
                return f"length({self.literal(ch.pick(STRINGS, 'literal'))})"
            ident, samples = self.origin(cands)
            text, _ = self.singular(samples)
            return f"length({ident}{text})"
        name = kind if kind != "typeof" else ch.pick(("typeof", "type"), "alias")
        return f"{name}({self.nonempty(cands, depth)})"

    def argument(self, cands: List[Any], depth: int, nodes: bool) -> str:
        """An argument of a function: nodes, or a value."""
        ch = self.ch
        if nodes:
            return self.embedded(cands, depth) if depth > 0 else (
                self.nonempty(cands, depth)
            )
        kind = ch.weighted(
            ((6, "singular"), (1, "literal"), (1, "function"),
             (1 if self.ext else 0, "key")),
            "argument",
        )
        if kind == "literal":
            return self._some_literal(cands)
        if kind == "key":
            return "#"
        if kind == "function" and depth > 0:
            return self.value_function(cands, depth - 1)
        ident, samples = self.origin(cands)
        text, _ = self.singular(samples)
        return ident + text

    def nonempty(self, cands: List[Any], depth: int) -> str:
        ident, samples = self.origin(cands)
        n = self.ch.between(1, 2, "embedded length")
        text, _ = self.segments(samples, min(depth, 1), n)
        return ident + text

    def test_function(self, cands: List[Any], depth: int) -> str:
        ch = self.ch
        kind = ch.weighted(
            ((3, "match"), (3, "search"), (2 if self.ext else 0, "is"),
             *(((4, "twin"), (3, "odd")) if self.custom else ())),
            "test function",
        )
        if kind == "odd":
            return f"odd({self.argument(cands, depth, nodes=True)})"
        if kind == "twin":
            return (
                f"twin({self.argument(cands, depth, nodes=False)}, "
                f"{self.argument(cands, depth, nodes=False)})"
            )
        if kind == "is":
            name = ch.pick(("isinstance", "is"), "alias")
            typ = ch.pick(
                ("string", "number", "array", "object", "bool", "null", "undefined"),
                "type name",
            )
            return f"{name}({self.nonempty(cands, depth)}, '{typ}')"
        ident, samples = self.origin(cands)
        text, _ = self.singular(samples)
        if ch.chance(1, 4, "pattern from query"):
            pid, psamples = self.origin(cands)
            ptext, _ = self.singular(psamples)
            return f"{kind}({ident}{text}, {pid}{ptext})"
        return f"{kind}({ident}{text}, {self.literal(self.pattern())})"

    def pattern(self) -> str:
        return self.ch.pick(("a.*", "a", ".", "[ab]+", ".*b", "1", "x?", "é|日"), "pattern")

    def membership(self, cands: List[Any], depth: int) -> str:
        ch = self.ch
        left, samples = self.comparable(cands, depth, query=True)
        if ch.chance(1, 2, "list literal"):
            items = [
                self._some_literal(samples or cands, item=True)
                for _ in range(ch.between(1, 3, "list items"))
            ]
            right = "[" + ", ".join(items) + "]"
        else:
            ident, rs = self.origin(cands)
            text, _ = self.singular(rs)
            right = ident + text
        if ch.chance(1, 3, "contains"):
            return f"{right} contains {left}"
        return f"{left} in {right}"

    def basic(self, cands: List[Any], depth: int, nesting: int) -> str:
        ch = self.ch
        table = [(6, "compare"), (4, "exists"), (2, "test"), (1, "not")]
        if nesting > 0:
            table += [(1, "paren"), (1, "notparen")]
        if self.ext:
            table += [(1, "regex"), (2, "in")]
        kind = ch.weighted(table, "filter kind")
        if kind == "compare":
            left, samples = self.comparable(cands, depth, query=True)
            op = ch.pick(
                ("==", "!=", "<", "<=", ">", ">=") + (("<>",) if self.ext else ()),
                "operator",
            )
            if samples and ch.chance(2, 3, "fitting literal"):
                right = self._some_literal(samples)
            else:
                right, _ = self.comparable(cands, depth)
            if ch.chance(1, 4, "swap"):
                left, right = right, left
            sp = ch.pick((" ", ""), "space")
            return f"{left}{sp}{op}{sp}{right}"
        if kind == "exists":
            return self.embedded(cands, depth)
        if kind == "test":
            return self.test_function(cands, depth)
        if kind == "not":
            inner = ch.draw(2, "not what")
            text = (
                self.embedded(cands, depth) if not inner else
                self.test_function(cands, depth)
            )
            return (ch.pick(("!", "not "), "not") if self.ext else "!") + text
        if kind == "paren":
            return "(" + self.logical(cands, depth, nesting - 1) + ")"
        if kind == "notparen":
            return "!(" + self.logical(cands, depth, nesting - 1) + ")"
        if kind == "regex":
            ident, samples = self.origin(cands)
            text, _ = self.singular(samples)
            flags = ch.pick(("", "i", "ims", "a"), "flags")
            return f"{ident}{text} =~ /{self.pattern()}/{flags}"
        return self.membership(cands, depth)

    def logical(self, cands: List[Any], depth: int, nesting: int) -> str:
        ch = self.ch
        text = self.basic(cands, depth, nesting)
        while nesting > 0 and ch.chance(1, 3, "more"):
            op = ch.pick(("&&", "||") + (("and", "or") if self.ext else ()), "logical")
            text += f" {op} " + self.basic(cands, depth, nesting)
            nesting -= 1
        return text

    # -- whole queries

    def pointed(self) -> str:
        """A query that is all about one filter."""
        ch = self.ch
        samples = list(self.docs)
        root = ch.pick(("$", "$", "$..", "$"), "root")
        if root == "$" and ch.chance(1, 3, "below"):
            text, samples = self.segment(samples, 0)
            root += text
        cands = self._spread(samples)
        if root == "$..":
            cands += self._spread(cands)
        kind = ch.weighted(
            ((5, "compare"), (2, "function"), (2, "test"), (2, "in"), (1, "exists"),
             (3, "selector")),
            "pointed",
        )
        if kind == "selector":
            # No filter at all, for once.
            forms = ["*", "[*]", "[0]", "[-1]", "[1:]", "[::-1]"]
            if self.ext:
                forms += ["~", "[~]"]
            text = ch.pick(forms, "selector")
            return root + text if text[0] == "[" or root == "$.." else f"{root}.{text}"
        if kind == "compare":
            ident, left = self.origin(cands)
            text, left = self.singular(left)
            ops = ("==", "!=", "<", "<=", ">", ">=")
            right = (
                self._some_literal(left + cands) if ch.chance(2, 3, "literal")
                else "".join(x for x in self.comparable(cands, 0)[:1])
            )
            expr = f"{ident}{text} {ch.pick(ops, 'operator')} {right}"
        elif kind == "function" and self.custom and ch.chance(1, 2, "own function"):
            expr = f"{self.value_function(cands, 0)} == {ch.draw(3, 'value')}"
        elif kind == "function":
            fn = ch.pick(("length", "count", "value") + (("typeof",) if self.ext else ()),
                         "function")
            ident, left = self.origin(cands)
            text, _ = self.singular(left)
            if fn == "typeof":
                right = quoted(ch, ch.pick(("array", "object", "string", "number"), "type"))
            elif fn == "value":
                right = self._some_literal(cands)
            else:
                right = str(ch.draw(4, "size"))
            if fn in ("count", "value", "typeof") and not text:
                text = ".*" if fn != "typeof" else "[0]"
            expr = f"{fn}({ident}{text}) {ch.pick(('==', '!=', '<', '>='), 'op')} {right}"
        elif kind == "test":
            expr = self.test_function(cands, 0)
        elif kind == "in" and self.ext:
            expr = self.membership(cands, 0)
        else:
            expr = self.embedded(cands, 0)
        return f"{root}[?{expr}]"

    def simple(self) -> str:
        ch = self.ch
        root = "$"
        samples = list(self.docs)
        if self.ext:
            root = ch.weighted(((12, "$"), (1, "^"), (1, "")), "root")
        n = ch.between(0 if root == "$" else 1, self.max_segments, "segments")
        if root == "^":
            samples = [[d] for d in self.docs]
        if n == 0 and ch.chance(3, 4, "not just root"):
            n = 1
        text, samples = self.segments(samples, 2, n)
        if self.ext and self.contexts and n and ch.chance(1, 5, "context at the end"):
            # Shows whether what went before handed the filter context on.
            tail, _ = self.singular(self.contexts)
            text += ch.pick(("[?_%s]", "[?!_%s]", "[?(_%s)]"), "context test") % tail
        if not root and text.startswith("."):
            text = text.lstrip(".")
            if not text or text[0] in "*~[":
                root = "$."
                if text[:1] == "[":
                    root = "$.."
        return root + text

    def query(self, compound: int = 20) -> str:
        """A query; with `compound` per cent probability a compound one."""
        ch = self.ch
        text = self.simple()
        if self.ext and ch.chance(compound, 100, "compound"):
            for _ in range(ch.between(1, 3, "operands")):
                if ch.chance(1, 4, "same operand"):
                    other = text.split(" | ")[0].split(" & ")[0]
                else:
                    other = self.simple()
                text += ch.pick((" | ", " & "), "compound operator") + other
        return text

    def mutated(self, text: str) -> str:
        ch = self.ch
        toks = ("$", "@", "[", "]", "(", ")", "?", "..", "'", '"', ",", ":", "*", "!",
                "&&", "=", "1", "a", " ", "/", "|", "&", "~", "^", "#", "_", "-", "nosuch(",
                "\\", "\n", "01", "9007199254740993", "==", "in", "count(", "length(")
        for _ in range(ch.between(1, 2, "mutations")):
            i = ch.draw(len(text) + 1, "position")
            what = ch.draw(3, "mutation")
            if what == 0:
                text = text[:i] + ch.pick(toks, "token") + text[i:]
            elif what == 1:
                text = text[:i] + text[i + ch.between(1, 3, "cut") :]
            else:
                text = text[:i] + ch.pick(toks, "token") + text[i + 1 :]
        return text


def context(ch: Choices, docs: DocGen) -> Dict[str, Any]:
    """A filter context mapping."""
    out = docs.obj(2)
    if not out:
        out = {"a": docs.scalar()}
    return out


# ---------------------------------------------------------------- focus

FAMILIES: Tuple[Tuple[Any, ...], ...] = (
    (1, True, 1.0, "1", 2),
    (0, False, 0.0, None, ""),
    ([1], [True], [1, 2], [2, 1], []),
    ({"a": 1}, {"a": True}, {"b": 1}, {"a": 1, "b": 1}, {}),
    ("ab", "a", "b", "abc", "AB"),
    ([], {}, "", None, 0),
    (2**53, 2**53 + 1, float(2**53), -(2**53), 1),
    ("a", "ab", "[", ".b|a", "(a)?", None),
    ([{"a": 1}], [{"a": 1.0}], [{"a": [1]}], {"a": [1]}, [[1]]),
)


TYPES = (
    "array", "number", "boolean", "string", "null", "object", "undefined", "int", "float",
)
PATTERNS = ("'a'", "'.*b'", "'['", "'b|a'", "'.'", "'a?'", "1", "null", "$[0]", "$.x")


class Focus:
    """Documents and queries about one thing, made so that its handling shows.

    All documents are containers of a few values that resemble each other, and
    all queries ask about these values.
    """

    def __init__(self, ch: Choices, custom: bool, ext: bool) -> None:
        self.ch = ch
        self.custom = custom
        self.ext = ext
        self.family = ch.pick(FAMILIES, "family")
        self.kind = ch.pick(("rows", "values", "cells"), "focus kind")

    def value(self) -> Any:
        return json.loads(json.dumps(self.ch.pick(self.family, "family value")))

    def document(self) -> Any:
        n = self.ch.between(1, 4, "focus size")
        if self.kind == "values":
            return [self.value() for _ in range(n)]
        if self.kind == "cells":
            return {k: self.value() for k in "abcd"[:n]}
        return [
            {k: self.value() for k in self.ch.pick(("a", "ab", "b", "ba"), "row")}
            for _ in range(n)
        ]

    def context(self) -> Any:
        return {"x": self.value(), "y": [self.value() for _ in range(self.ch.draw(3, "y"))]}

    def literal(self, v: Any) -> Optional[str]:
        if isinstance(v, list):
            items = [self.literal(x) for x in v if not isinstance(x, (dict, list))]
            if not self.ext or not items or len(items) < len(v):
                return None
            return "[" + ", ".join(str(x) for x in items) + "]"
        return None if isinstance(v, dict) else json.dumps(v)

    def query(self) -> str:
        ch = self.ch
        one = "@" if self.kind != "rows" else ch.pick(("@.a", "@['a']", "@.b", "@[?@]"), "operand")
        first = {"rows": "$[0].a", "values": "$[0]", "cells": "$.a"}[self.kind]
        v = self.value()
        lit = self.literal(v)
        if lit is None:
            lit = first
        if one == "@[?@]":
            return f"$[?{one}]"
        if self.ext and ch.chance(1, 5, "from the context"):
            lit = ch.pick(("_.x", "_.y[0]"), "context operand")
        op = ch.pick(("==", "==", "!=", "<", "<=", ">", ">="), "op")
        k = ch.draw(4, "k")
        forms = [
            f"{one} {op} {lit}", f"{lit} {op} {one}", f"{one} == {first}",
            f"{one} {op} {lit}", f"{lit} {op} {one}", f"{one} {op} {first}",
            f"{one} {op} {lit}", f"length({one}) {op} {k}", f"count({one}.*) {op} {k}",
            f"value({one}.*) {op} {lit}", f"match({one}, 'a.*')", f"search({one}, 'b')",
            f"match({one}, {first})", f"search({one}, {first})",
            f"{ch.pick(('match', 'search'), 'regex')}({first}, {one if '?' not in one else lit})",
            f"{ch.pick(('match', 'search'), 'regex')}({one}, {ch.pick(PATTERNS, 'pattern')})",
            f"{one}", f"!{one}", f"{one}[?@ {op} {lit}]", f"{first} {op} {lit}",
            f"{one}.* && {one} != {lit}", f"length({first}) {op} {k}",
        ]
        if self.ext:
            listed = "[" + ", ".join(
                x for x in (self.literal(y) for y in self.family[:2]) if x and x[0] != "["
            ) + "]"
            forms += [
                f"typeof({one}) == '{ch.pick(TYPES, 'type')}'",
                f"isinstance({one}, '{ch.pick(TYPES, 'type')}')",
                f"typeof({one}) {op} typeof({first})",
                f"{one} =~ /{ch.pick(('a.*', '.b', 'ab?', 'A'), 'regex')}/{ch.pick(('', 'i'), 'flag')}",
                f"_.y contains {one}", f"{one} in {first}", f"# {op} {k}",
                f"{one} in _.y", "# == 'a'", f"{one} == undefined",
            ]
            if len(listed) > 2:
                forms += [f"{one} in {listed}", f"{listed} contains {one}"]
        if self.custom:
            forms += [
                f"digest({one}) == {k}", f"digests({one}.*) == {k}", f"odd({one})",
                f"twin({one}, {lit})", f"untyped({one}, {first}) == {k}",
                f"nodes({one}.*, {first}) == {k}", f"digest({one}) == digest({first})",
            ]
        plain = ["$.*", "$[0]", "$[-1]", "$[1:]", "$[::-1]", "$..*", "$..a", "$[0, -1]"]
        if self.ext:
            plain += ["$.~", "$..~", "$[?@]~"]
        if ch.chance(1, 5, "plain"):
            return ch.pick(plain, "plain query")
        head = ch.pick(("$", "$", "$", "$.."), "head")
        expr = ch.pick(forms, "form")
        how = ch.pick((None, None, None, None, "!", "&&", "||", "!&&"), "combined")
        if how == "!":
            expr = f"!({expr})"
        elif how:
            other = ch.pick(forms, "form")
            expr = f"!({other}) && {expr}" if how == "!&&" else f"{expr} {how} {other}"
        return f"{head}[?{expr}]"
