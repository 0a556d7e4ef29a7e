"""Document containers, environments and getters that the simulator controls."""

from __future__ import annotations

import asyncio
import copy
import zlib
from collections.abc import Mapping
from collections.abc import Sequence
from typing import Any
from typing import Callable
from typing import Dict
from typing import List
from typing import Optional
from typing import Set
from typing import Tuple

import jsonpath
from jsonpath.filter import UNDEFINED
from jsonpath.function_extensions import ExpressionType
from jsonpath.function_extensions import FilterFunction

from .canon import canon
from .canon import match_canon


class SimIOError(OSError):
    """A transient failure of a document's storage."""


class Getter:
    """Decides what happens inside an item getter.

    `sites` are deterministic failures, the same in sync and async evaluation.
    `pause` is awaited by asynchronous getters.
    """

    def __init__(self) -> None:
        self.sites: Dict[Tuple[int, Any], type] = {}
        self.pause: Optional[Callable[[], Any]] = None
        self.hook: Optional[Callable[[Any, Any], None]] = None
        self.calls = 0
        self.hits = 0

    def visit(self, obj: Any, key: Any) -> None:
        self.calls += 1
        if self.sites:
            k = "slice" if isinstance(key, slice) else key
            if not isinstance(k, (str, int)):
                k = repr(k)
            err = self.sites.get((id(obj), k))
            if err is not None:
                self.hits += 1
                raise err("simulated storage failure")
        if self.hook is not None:
            self.hook(obj, key)


class AMap(Mapping):
    """A mapping that supplies an asynchronous item getter."""

    def __init__(self, raw: Dict[str, Any], getter: Getter) -> None:
        self._raw = raw
        self._getter = getter

    def __getitem__(self, key: Any) -> Any:
        self._getter.visit(self, key)
        return self._raw[key]

    async def __getitem_async__(self, key: Any) -> Any:
        if self._getter.pause is not None:
            await self._getter.pause()
        self._getter.visit(self, key)
        return self._raw[key]

    def __iter__(self) -> Any:
        return iter(self._raw)

    def __len__(self) -> int:
        return len(self._raw)

    def __contains__(self, key: Any) -> bool:
        return key in self._raw

    def __eq__(self, other: Any) -> bool:
        if isinstance(other, AMap):
            return self._raw == other._raw
        return isinstance(other, Mapping) and self._raw == dict(other)

    __hash__ = None  # type: ignore

    def __repr__(self) -> str:
        return f"AMap({self._raw!r})"


class AList(Sequence):
    """A sequence that supplies an asynchronous item getter."""

    def __init__(self, raw: List[Any], getter: Getter) -> None:
        self._raw = raw
        self._getter = getter

    def __getitem__(self, key: Any) -> Any:
        self._getter.visit(self, key)
        return self._raw[key]

    async def __getitem_async__(self, key: Any) -> Any:
        if self._getter.pause is not None:
            await self._getter.pause()
        self._getter.visit(self, key)
        return self._raw[key]

    def __iter__(self) -> Any:
        return iter(self._raw)

    def __len__(self) -> int:
        return len(self._raw)

    def __eq__(self, other: Any) -> bool:
        if isinstance(other, AList):
            return self._raw == other._raw
        return isinstance(other, list) and self._raw == other

    __hash__ = None  # type: ignore

    def __repr__(self) -> str:
        return f"AList({self._raw!r})"


def proxy(value: Any, getter: Getter, known: Any = None) -> Any:
    known = {} if known is None else known
    if id(value) in known:
        return known[id(value)]
    out: Any
    if isinstance(value, dict):
        out = AMap({k: proxy(v, getter, known) for k, v in value.items()}, getter)
    elif isinstance(value, list):
        out = AList([proxy(v, getter, known) for v in value], getter)
    else:
        return value
    known[id(value)] = out
    return out


# -- filter functions of our own, which tell apart what the bundled ones do not


def _argument(obj: Any) -> str:
    if isinstance(obj, jsonpath.NodeList):
        return "nodes[" + "; ".join(match_canon(m) for m in obj) + "]"
    if obj is UNDEFINED:
        return "nothing"
    return canon(obj)


def _digest(args: Any) -> int:
    return zlib.crc32(", ".join(_argument(a) for a in args).encode("utf-8", "replace"))


class _Typed(FilterFunction):
    def __init__(self, args: List[ExpressionType], returns: ExpressionType) -> None:
        self._args = args
        self._returns = returns

    @property
    def arg_types(self) -> List[ExpressionType]:
        return self._args

    @property
    def return_type(self) -> ExpressionType:
        return self._returns

    def __call__(self, *args: Any, **kw: Any) -> Any:
        n = _digest(args)
        return n % 2 == 0 if self._returns == ExpressionType.LOGICAL else n % 3


def untyped(*args: Any) -> int:
    return _digest(args) % 3


class _Nodes:
    with_node_lists = True

    def __call__(self, *args: Any) -> int:
        return _digest(args) % 3


class _Picky(FilterFunction):
    """A function that will not take some arguments."""

    arg_types = [ExpressionType.VALUE]
    return_type = ExpressionType.VALUE

    def __call__(self, arg: Any) -> int:
        n = _digest((arg,))
        if n % 7 == 0:
            raise jsonpath.JSONPathTypeError("picky: wrong type")
        if n % 7 == 1:
            raise ValueError("picky: wrong value")
        return n % 3


class FunctionsEnv(jsonpath.JSONPathEnvironment):
    """An environment with more filter functions."""

    def setup_function_extensions(self) -> None:
        super().setup_function_extensions()
        v, n, b = ExpressionType.VALUE, ExpressionType.NODES, ExpressionType.LOGICAL
        self.function_extensions.update(
            digest=_Typed([v], v),
            twin=_Typed([v, v], b),
            digests=_Typed([n], v),
            odd=_Typed([n], b),
            untyped=untyped,
            nodes=_Nodes(),
            picky=_Picky(),
        )


class SimEnv(FunctionsEnv):
    """An environment whose item getters go through a Getter."""

    def __init__(self, *, getter: Getter, **kw: Any) -> None:
        super().__init__(**kw)
        self.sim_getter = getter

    def getitem(self, obj: Any, key: Any) -> Any:
        self.sim_getter.visit(obj, key)
        return super().getitem(obj, key)

    async def getitem_async(self, obj: Any, key: object) -> Any:
        if self.sim_getter.pause is not None:
            await self.sim_getter.pause()
        self.sim_getter.visit(obj, key)
        return await super().getitem_async(obj, key)


def containers(value: Any) -> List[Tuple[Any, Any]]:
    """Every (container, key) of a document, outermost first."""
    out: List[Tuple[Any, Any]] = []

    def walk(v: Any) -> None:
        if isinstance(v, Mapping):
            raw = getattr(v, "_raw", v)
            for k in raw:
                out.append((v, k))
            for k in raw:
                walk(raw[k])
        elif isinstance(v, Sequence) and not isinstance(v, str):
            raw = getattr(v, "_raw", v)
            for i in range(len(raw)):
                out.append((v, i))
            for x in raw:
                walk(x)

    walk(value)
    return out


# -- containers that notice being modified


class Modified(Exception):
    """An attempt to modify a document or filter context."""


class _Watch:
    """Counts attempts to modify watched containers."""

    def __init__(self) -> None:
        self.events: List[str] = []
        self.owned: Dict[int, Any] = {}


def _trap(name: str) -> Any:
    def method(self: Any, *args: Any, **kw: Any) -> Any:
        watch = getattr(self, "_watch", None)
        if watch is not None and id(self) in watch.owned:  # not a copy
            watch.events.append(f"{type(self).__name__}.{name}{args!r}"[:200])
        return getattr(super(type(self), self), name)(*args, **kw)

    method.__name__ = name
    return method


class PlainCopies:
    """Copies of simulated containers are plain ones."""

    def __copy__(self) -> Any:
        return dict(self) if isinstance(self, dict) else list(self)  # type: ignore

    def __deepcopy__(self, memo: Any) -> Any:
        if isinstance(self, dict):
            d: Dict[Any, Any] = {}
            memo[id(self)] = d
            for k in dict.keys(self):
                dict.__setitem__(d, k, copy.deepcopy(dict.__getitem__(self, k), memo))
            return d
        x: List[Any] = []
        memo[id(self)] = x
        for v in list.__iter__(self):  # type: ignore
            x.append(copy.deepcopy(v, memo))
        return x


class TrapDict(PlainCopies, dict):
    _watch: _Watch


class TrapList(PlainCopies, list):
    _watch: _Watch


for _name in (
    "__setitem__ __delitem__ clear pop popitem setdefault update __ior__".split()
):
    setattr(TrapDict, _name, _trap(_name))
for _name in (
    "__setitem__ __delitem__ append clear extend insert pop remove reverse sort "
    "__iadd__ __imul__".split()
):
    setattr(TrapList, _name, _trap(_name))


def trapped(value: Any, watch: _Watch, known: Any = None) -> Any:
    known = {} if known is None else known
    if id(value) in known:
        return known[id(value)]
    out: Any
    if isinstance(value, dict):
        out = TrapDict({k: trapped(v, watch, known) for k, v in value.items()})
    elif isinstance(value, list):
        out = TrapList([trapped(v, watch, known) for v in value])
    else:
        return value
    out._watch = watch
    watch.owned[id(out)] = out
    known[id(value)] = out
    return out


Watch = _Watch


def kind_of(err: BaseException) -> str:
    return f"{type(err).__module__}.{type(err).__qualname__}"


def cancelled_kinds() -> Set[type]:
    return {asyncio.CancelledError}


def scribble(value: Any, depth: int = 0) -> None:
    """Change every container of a result."""
    if depth > 60:
        return
    if isinstance(value, dict):
        for v in list(dict.values(value)):
            scribble(v, depth + 1)
        dict.__setitem__(value, "scribbled", ["!"])
        for k in list(value)[:1]:
            if k != "scribbled":
                dict.__delitem__(value, k)
    elif isinstance(value, list):
        for v in list(value):
            scribble(v, depth + 1)
        list.append(value, "scribbled")
        list.__setitem__(value, 0, {"!": 1})
