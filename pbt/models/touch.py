"""What objects hold, which of them are mutable, and how to spoil them."""

from __future__ import annotations

import collections
import types
from typing import Any

import lib
from lib import Attrs, MyMapping, MySequence

ATTRIBUTES = ('__dict__', '__pydantic_fields_set__', '__pydantic_extra__', '__pydantic_private__', 'a', 'b', 'c')
INSTANCES = (lib.ModelBase, lib.DcBase, Attrs, MyMapping, MySequence)


def parts(v: Any) -> list:
    """What the object directly holds."""
    out: list = []
    if isinstance(v, dict):
        out += [x for item in v.items() for x in item]
    elif isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        out += list(v)
    elif isinstance(v, bytearray):
        out += list(v)
    if isinstance(v, INSTANCES) or type(v) in (lib.DictSub, lib.ListSub, lib.SetSub):
        for k in ATTRIBUTES:
            try:
                out.append(object.__getattribute__(v, k))
            except AttributeError:
                out.append(None)
    if type(v) is lib.pc.ArgsKwargs:
        out += [v.args, v.kwargs]
    return out


def reachable(v: Any, stop: Any = lambda v: False) -> list:
    """Everything that can be reached from the object, itself included; nothing is looked for in what `stop` says."""
    seen: dict = {}
    todo = [v]
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (str, bytes, int, float, type, types.FunctionType, types.ModuleType, type(None))):
            continue
        if stop(x):
            continue
        seen[id(x)] = x
        if not isinstance(x, bytearray):
            todo += parts(x)
    return list(seen.values())


def mutable(v: Any) -> bool:
    return isinstance(v, (list, dict, set, bytearray, collections.deque)) or isinstance(v, INSTANCES)


def snapshot(*roots: Any) -> list:
    """[(object, what it holds)] of everything that can be reached."""
    return [(x, parts(x)) for root in roots for x in reachable(root)]


def changed(snap: list) -> Any:
    """The first object that now holds something else, or None."""
    for x, before in snap:
        now = parts(x)
        if len(now) != len(before) or any(a is not b and not (isinstance(a, (int, str, bytes)) and type(a) is type(b) and a == b) for a, b in zip(now, before)):
            return x
    return None


def spoil(v: Any, keep: Any = lambda v: False) -> None:
    """Changes everything mutable that can be reached."""
    for x in reachable(v, keep):
        if isinstance(x, (lib.ModelBase, lib.DcBase)):
            continue  # its __dict__ is one of the objects that can be reached
        if isinstance(x, (dict, set, collections.deque)):
            x.clear()
            if isinstance(x, dict):
                x['spoilt'] = True
            elif isinstance(x, set):
                x.add('spoilt')
        elif isinstance(x, (list, bytearray)):
            x[:] = [0]
