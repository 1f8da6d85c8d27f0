"""Definitions: schemas that refer to each other by name, and values that contain themselves or are very deep."""

from __future__ import annotations

from typing import Any

import lib
import specs
from core import X
from lib import Skip, mk
from models import compose
from models.compose import St, bad, node, run
from pydantic_core._pydantic_core import _recursion_limit as LIMIT


@node('definitions')
def run_definitions(schema: dict, value: Any, st: St) -> Any:
    defs = {**st.defs, **{d['ref']: (d, st.config) for d in schema['definitions']}}
    st = st.but(defs=defs, guard=getattr(st, 'guard', None) or Guard())
    return run(schema['schema'], value, st)


class Guard:
    """What is being validated at the moment, by which definition."""

    def __init__(self) -> None:
        self.ids: set = set()
        self.depth = 0
        self.deepest = 0
        self.cycles = 0
        self.exceeded = 0
        self.entered = 0


def enter(name: str, st: St) -> tuple[dict, St]:
    schema, config = st.defs[name]
    return schema, st.but(config=config)


@node('definition-ref')
def run_ref(schema: dict, value: Any, st: St) -> Any:
    g = st.guard
    key = (id(value), schema['schema_ref'], st.mode == 'json')  # of a JSON value there's a Python object only once a function is called
    counted = st.mode != 'json'  # the depth of JSON is limited by the parser
    if key in g.ids:
        g.cycles += 1
        raise bad('recursion_loop', value)
    if counted and g.depth >= LIMIT:
        g.exceeded += 1
        raise bad('recursion_loop', value)
    g.entered += 1
    if g.entered > 2000:
        raise Skip  # takes too long
    g.ids.add(key)
    g.depth += counted
    g.deepest = max(g.deepest, len(g.ids))
    try:
        return run(*_swap(schema['schema_ref'], value, st))
    finally:
        g.ids.discard(key)
        g.depth -= counted


def _swap(name: str, value: Any, st: St) -> tuple[dict, Any, St]:
    sub, inner = enter(name, st)
    return sub, value, inner


def ref_default(schema: dict, st: St) -> tuple[bool, Any]:
    g = st.guard
    if g.depth >= LIMIT:
        g.exceeded += 1
        raise bad('recursion_loop', None)
    g.entered += 1
    if g.entered > 2000:
        raise Skip
    g.depth += 1
    try:
        return compose.default_of(*enter(schema['schema_ref'], st))
    finally:
        g.depth -= 1


compose.DEFAULTS['definition-ref'] = ref_default


# ------------------------------------------------------------------------------------------------------- generation
class Plan:
    """How many more references a value may go through, and where they were."""

    def __init__(self, defs: dict, budget: int):
        self.defs, self.budget = defs, budget


PLAN: list[Plan] = []


def make(s, spec, mode, noise):
    plan = PLAN[-1] if PLAN else Plan({}, 0)
    name = spec['schema_ref']
    if plan.budget <= 0 or name not in plan.defs:
        return X('mark', name, pick_end(s, mode))
    plan.budget -= 1
    return X('mark', name, specs.value_for(s, plan.defs[name], mode, noise))


def pick_end(s, mode):
    return specs.pick(s, [[], {}, 1, 'a', None] if mode != 'strings' else [{}, 'a', '1'])


specs.VALUE_MAKERS['definition-ref'] = make
specs.VALUE_MAKERS['definitions'] = lambda s, spec, mode, noise: specs.value_for(s, spec['schema'], mode, noise)

THROUGH = {'list': 0, 'tuple': 0, 'dict': 0, 'odict': 0, 'mapping': 0, 'attrs': 0, 'inst': 1, 'dci': 1, 'seq': 0, 'deque': 0}


def strip(v: Any, path: tuple | None, out: list) -> Any:
    """`v` without its marks; `out` gets (path, name) of each that can be reached."""
    if isinstance(v, X):
        if v.kind == 'mark':
            if path is not None:
                out.append((path, v.args[0]))
            return strip(v.args[1], path, out)
        at = THROUGH.get(v.kind)
        return X(v.kind, *(strip(a, path if i == at else None, out) for i, a in enumerate(v.args)))
    if isinstance(v, (list, tuple)):
        return type(v)(strip(a, None if path is None else (*path, i), out) for i, a in enumerate(v))
    if isinstance(v, dict):
        return {strip(k, None, out): strip(a, None if path is None else (*path, k), out) for k, a in v.items()}
    if isinstance(v, (set, frozenset)):
        return type(v)(strip(a, None, out) for a in v)
    return v


def get(obj: Any, path: tuple) -> Any:
    for step in path:
        obj = vars(obj)[step] if hasattr(obj, '__dict__') and not isinstance(obj, (list, dict, tuple)) and not hasattr(obj, 'items') else obj[mk(step)]
    return obj


def put(obj: Any, path: tuple, value: Any) -> None:
    obj = get(obj, path[:-1])
    step = mk(path[-1])
    if isinstance(obj, lib.MyMapping):
        obj = obj.d
    if isinstance(obj, (list, dict)) or not hasattr(obj, '__dict__'):
        obj[step] = value
    else:
        vars(obj)[step] = value


def linked(value: Any, links: tuple) -> Any:
    """An object whose part at one path is the one at another: shared, or containing itself."""
    v = mk(value)
    for dst, src in links:
        try:
            part = get(v, src)
            put(v, dst, part)
        except (TypeError, KeyError, IndexError, AttributeError, RecursionError):
            pass
    return v


def deep(value: Any, path: tuple, n: int, end: Any = None) -> Any:
    """The value inside of itself, n times."""
    v = mk(value) if end is None else mk(end)
    for _ in range(n):
        outer = mk(value)
        try:
            put(outer, path, v)
        except (TypeError, KeyError, IndexError, AttributeError):
            return v
        v = outer
    return v


def ring(value: Any, path: tuple, n: int, k: int) -> Any:
    """The value inside of itself, n times, the innermost of which has the one k levels below the top in it."""
    vs = [mk(value) for _ in range(n)]
    for outer, inner in zip(vs, [*vs[1:], vs[k % n]]):
        try:
            put(outer, path, inner)
        except (TypeError, KeyError, IndexError, AttributeError):
            break
    return vs[0]


lib.BUILDERS.update(linked=linked, deep=deep, ring=ring, mark=lambda name, v: mk(v))


INSIDE = ('items_schema', 'values_schema', 'keys_schema', 'fields', 'extras_schema', 'definitions')


def at_once(schema: Any, defs: dict, seen: tuple) -> set:
    """The definitions that are used without looking into the value."""
    if isinstance(schema, (list, tuple)):
        return set().union(*(at_once(x, defs, seen) for x in schema))
    if not isinstance(schema, dict):
        return set()
    if schema.get('type') == 'definition-ref':
        name = schema['schema_ref']
        return {name} if name in seen else {name} | at_once(defs[name], defs, (*seen, name))
    return set().union(*(at_once(v, defs, seen) for k, v in schema.items() if k not in INSIDE))
