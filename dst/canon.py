"""Type-strict, order-preserving canonical text for JSON-like values."""

from __future__ import annotations

import json
from collections.abc import Mapping
from collections.abc import Sequence
from typing import Any
from typing import Tuple


CYCLE = "<contains itself>"


def canon(obj: Any, inside: Tuple[int, ...] = ()) -> str:
    """Distinguish 1, 1.0, True and "1"; keep member order."""
    t = type(obj)
    if t is str:
        return json.dumps(obj)
    if obj is None or t is bool or t is int or t is float:
        return repr(obj)
    if id(obj) in inside:
        return CYCLE
    if len(inside) > 150:
        return "<too deep>"
    if isinstance(obj, Mapping):
        inside = (*inside, id(obj))
        return (
            "{"
            + ", ".join(
                f"{canon(k, inside)}: {canon(_get(obj, k), inside)}" for k in obj
            )
            + "}"
        )
    if isinstance(obj, str):
        return json.dumps(str(obj))
    if isinstance(obj, Sequence):
        inside = (*inside, id(obj))
        return (
            "["
            + ", ".join(canon(_get(obj, i), inside) for i in range(len(obj)))
            + "]"
        )
    return f"<{t.__name__} {obj!r}>"


def _get(obj: Any, key: Any) -> Any:
    raw = getattr(obj, "_raw", None)
    return obj[key] if raw is None else raw[key]


def plain(obj: Any) -> Any:
    """A deep copy made of plain dicts and lists."""
    if isinstance(obj, Mapping):
        return {k: plain(_get(obj, k)) for k in obj}
    if isinstance(obj, Sequence) and not isinstance(obj, str):
        return [plain(_get(obj, i)) for i in range(len(obj))]
    return obj


def json_equal(a: Any, b: Any) -> bool:
    """Equality of JSON values: object members unordered, 1 == 1.0, 1 != true."""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, Mapping) and isinstance(b, Mapping):
        return len(a) == len(b) and all(
            k in b and json_equal(_get(a, k), _get(b, k)) for k in a
        )
    if (
        isinstance(a, Sequence)
        and isinstance(b, Sequence)
        and not isinstance(a, str)
        and not isinstance(b, str)
    ):
        return len(a) == len(b) and all(
            json_equal(_get(a, i), _get(b, i)) for i in range(len(a))
        )
    return bool(a == b)


def match_canon(match: Any) -> str:
    """Value, normalized path and parts of a JSONPathMatch."""
    return f"{match.path}  parts={match.parts!r}  value={canon(match.obj)}"
