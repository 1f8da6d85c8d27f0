"""Reference model of function validators and of the schemas that choose between or chain others."""

from __future__ import annotations

import types
from typing import Any

import lib
import pydantic_core as pc
import specs
from core import X
from lib import Boom, Skip, mk
from specs import chance, pick

from . import compose, fields, unions
from .compose import LAX, Bad, Omitted, St, UseDefault, bad, node, run


def call(schema: dict, st: St, value: Any, *args: Any) -> Any:
    """Calls the function of a function schema; `value` is what errors are reported for."""
    f = schema['function']
    if f['type'] == 'with-info':
        name = st.field_name if st.field_name is not None else f.get('field_name')
        mode = 'string' if st.call_mode == 'strings' else st.call_mode
        args += (types.SimpleNamespace(mode=mode, context=st.context, data=st.data, field_name=name, config=st.config or None),)
    try:
        return mk(f['function'])(*args)
    except pc.PydanticOmit:
        raise Omitted from None
    except pc.PydanticUseDefault:
        raise UseDefault from None
    except (ValueError, AssertionError) as e:
        raise fields.function_error(e, value) from None


@node('function-before')
def run_before(schema: dict, value: Any, st: St) -> Any:
    return run(schema['schema'], call(schema, st, value, value), st.as_object())


@node('function-after')
def run_after(schema: dict, value: Any, st: St) -> Any:
    return call(schema, st, value, run(schema['schema'], value, st))


@node('function-plain')
def run_plain(schema: dict, value: Any, st: St) -> Any:
    return call(schema, st, value, value)


@node('function-wrap')
def run_wrap(schema: dict, value: Any, st: St) -> Any:
    def handler(v: Any, loc: Any = None) -> Any:
        try:
            return run(schema['schema'], v, st.as_object(field_name=None))
        except Bad as e:
            st.murky()
            raise lib.HandlerError(e.errors if loc is None else compose.prefix(e.errors, loc)) from None
        except (Omitted, UseDefault):
            raise Skip from None  # "please check your usage of default validators": unspecified

    return call(schema, st, value, value, handler)


@node('chain')
def run_chain(schema: dict, value: Any, st: St) -> Any:
    first, *rest = schema['steps']
    value = run(first, value, st)
    for step in rest:
        value = run(step, value, st.as_object())
    return value


@node('custom-error')
def run_custom_error(schema: dict, value: Any, st: St) -> Any:
    try:
        return run(schema['schema'], value, st)
    except Bad:
        raise unions.custom_error(schema, value) from None
    except (Omitted, UseDefault, Boom):
        raise Skip from None  # are hidden as well: unspecified


@node('lax-or-strict')
def run_lax_or_strict(schema: dict, value: Any, st: St) -> Any:
    if st.is_strict(schema):
        return run(schema['strict_schema'], value, st)
    if st.track is not None:
        try:
            return run(schema['strict_schema'], value, st)
        except (Bad, Omitted, UseDefault):
            pass
        except Boom:
            raise Skip from None
        if "'fields'" in repr(schema['strict_schema']):
            st.murky()  # fields may have been counted
        st.floor(LAX)
    return run(schema['lax_schema'], value, st)


@node('json-or-python')
def run_json_or_python(schema: dict, value: Any, st: St) -> Any:
    return run(schema['python_schema' if st.call_mode == 'python' else 'json_schema'], value, st)


# ------------------------------------------------------------------------------------------------------ assignment
def assign(schema: dict, obj: Any, name: str, value: Any, st: St) -> Any:
    """validate_assignment where functions may be around the model."""
    t = schema['type']
    if t == 'function-before':
        return assign(schema['schema'], call(schema, st, obj, obj), name, value, st)
    if t == 'function-after':
        return call(schema, st, obj, assign(schema['schema'], obj, name, value, st))
    if t == 'function-wrap':

        def handler(v: Any, loc: Any = None) -> Any:
            try:
                return assign(schema['schema'], v, name, value, st.but(field_name=name))
            except Bad as e:
                raise lib.HandlerError(e.errors if loc is None else compose.prefix(e.errors, loc)) from None

        return call(schema, st, obj, obj, handler)
    fields.assign(schema, obj, name, value, st)
    return obj


# ------------------------------------------------------------------------------------------------------ generation
PLAIN = [k for k in lib.V_FUNCTIONS if not k.startswith('w_')]
WRAPS = [k for k in lib.V_FUNCTIONS if k.startswith('w_')]


def function(s, names: list[str]) -> dict:
    name = pick(s, names)
    out: dict = {'type': pick(s, ['no-info', 'with-info']), 'function': X('vf', name)}
    if out['type'] == 'with-info' and chance(s, 1, 3):
        out['field_name'] = pick(s, ['a', 'named'])
    return out


def model_spec(s) -> dict:
    """A model or dataclass with functions around it, which leave it what it is."""
    out = (fields.model_spec if s.draw(3) else fields.dataclass_spec)(s, 'python', 2, tree)
    for _ in range(s.draw(3)):
        kind = pick(s, ['before', 'after', 'wrap', 'wrap'])
        names = {'before': ['same', 'same', 'same', 'always'], 'after': ['same', 'same', 'null', 'always'],
                 'wrap': ['w_same', 'w_skip', 'w_caught', 'w_count', 'w_loc', 'w_loc_int', 'w_twice', 'w_after', 'w_wrapped']}[kind]
        out = {'type': f'function-{kind}', 'function': function(s, names), 'schema': out}
    return out


def function_spec(s, mode: str, depth: int, sub: Any) -> dict:
    kind = pick(s, ['before', 'after', 'wrap', 'wrap', 'plain'])
    out: dict = {'type': f'function-{kind}', 'function': function(s, WRAPS if kind == 'wrap' else PLAIN)}
    if kind != 'plain':
        out['schema'] = sub(s, mode, depth - 1)
    return out


def wrapper_spec(s, mode: str, depth: int, sub: Any) -> dict:
    k = s.draw(10)
    if k < 5:
        return function_spec(s, mode, depth, sub)
    if k == 5:
        steps = [sub(s, mode, depth - 1) for _ in range(1 + s.draw(3))]
        if len(steps) == 1:
            steps[0] = unions.without_default(steps[0])
        return {'type': 'chain', 'steps': steps}
    if k == 6:
        return {'type': 'custom-error', 'schema': sub(s, mode, depth - 1), **pick(s, unions.CUSTOM_ERRORS)}
    if k == 7:
        out = {'type': 'lax-or-strict', 'lax_schema': sub(s, mode, depth - 1), 'strict_schema': sub(s, mode, depth - 1)}
        if chance(s, 1, 3):
            out['strict'] = bool(s.draw(2))
        return out
    if k == 8:
        return {'type': 'json-or-python', 'json_schema': sub(s, mode, depth - 1), 'python_schema': sub(s, mode, depth - 1)}
    return default_spec(s, mode, depth, sub)


def default_spec(s, mode: str, depth: int, sub: Any) -> dict:
    out = specs.default_spec(s, sub(s, mode, depth - 1), mode, specs.value_for)
    if chance(s, 2, 3):
        out.pop('default', None)
        name = pick(s, list(lib.FACTORIES))
        out['default_factory'] = X('ff', name)
        if name in ('f_keys', 'f_count'):
            out['default_factory_takes_data'] = True
    return out


def tree(s, mode: str, depth: int) -> dict:
    k = s.draw(10)
    if depth <= 0:
        return function_spec(s, mode, 0, leaf) if k == 9 else leaf(s, mode, 0)
    if k < 4:
        return wrapper_spec(s, mode, depth, tree)
    if k == 4:
        return unions.union_spec(s, mode, depth, tree)
    if k < 8:
        kind = s.draw(3)
        return [fields.typed_dict_spec, fields.model_spec, fields.dataclass_spec][kind](s, mode, depth, tree)
    sub = tree(s, mode, depth - 1)
    return pick(s, [{'type': 'list', 'items_schema': sub}, {'type': 'nullable', 'schema': sub}, {'type': 'set', 'items_schema': sub},
                    {'type': 'dict', 'values_schema': sub}, {'type': 'tuple', 'items_schema': [sub], 'variadic_item_index': 0},
                    {'type': 'tuple', 'items_schema': [leaf(s, mode, 0), sub]}])


def leaf(s, mode: str, depth: int) -> dict:
    return specs.leaf_spec(s)


def inner(spec: dict, s) -> dict:
    for k in ('schema', 'python_schema', 'lax_schema', 'json_schema', 'strict_schema'):
        if k in spec and s.draw(3):
            return spec[k]
    return spec.get('schema') or (spec['steps'][0] if 'steps' in spec else {'type': 'any'} if 'python_schema' not in spec else spec['json_schema'])


def make(s, spec, mode, noise):
    return specs.value_for(s, inner(spec, s), mode, noise)


for _t in ('function-before', 'function-after', 'function-wrap', 'function-plain', 'chain', 'custom-error', 'lax-or-strict', 'json-or-python'):
    specs.VALUE_MAKERS[_t] = make
