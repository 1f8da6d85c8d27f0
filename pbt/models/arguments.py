"""Reference model of arguments, arguments-v3 and call schemas."""

from __future__ import annotations

import collections.abc
from typing import Any

import lib
import pydantic_core as pc
import specs
from core import X
from lib import Skip, mk
from specs import chance, pick

from . import compose, fields
from .compose import Bad, Omitted, St, UseDefault, bad, default_of, err, loc_item, node, prefix, run
from .fields import MISSING, Source, config_flag

POSITIONAL = ('positional_only', 'positional_or_keyword')
KEYWORD = ('positional_or_keyword', 'keyword_only')
MISSING_ERROR = {'positional_only': 'missing_positional_only_argument', 'positional_or_keyword': 'missing_argument',
                 'keyword_only': 'missing_keyword_only_argument'}


def mode_of(p: dict) -> str:
    return p.get('mode', 'positional_or_keyword')


def paths_of(schema: dict, p: dict, st: St) -> list[list]:
    config = dict(st.config)
    for k in ('validate_by_name', 'validate_by_alias'):
        if k in schema:
            config[k] = schema[k]
    return fields.lookup_paths(p['name'], {'validation_alias': p['alias']} if 'alias' in p else {}, st.but(config=config))


class Binding:
    """What the function is going to be called with."""

    def __init__(self) -> None:
        self.args: list = []
        self.kwargs: dict = {}
        self.errors: list[dict] = []

    def put_kwarg(self, key: str, v: Any) -> None:
        self.kwargs[key] = v

    def more(self, items: dict, taken: set[str]) -> None:
        """Variadic keyword arguments next to those of parameters."""
        if any(k in taken for k in items):
            raise Skip  # two values for one parameter: unspecified
        self.kwargs.update(items)

    def result(self) -> tuple:
        if self.errors:
            raise Bad(self.errors)
        return tuple(self.args), self.kwargs


def attempt(b: Binding, schema: dict, v: Any, st: St, locate: Any) -> tuple[bool, Any]:
    try:
        return True, run(schema, v, st)
    except Bad as e:
        b.errors += locate(e.errors)
        return False, None
    except (Omitted, UseDefault):
        raise Skip from None  # there is no such thing as leaving out an argument


def default(b: Binding, schema: dict, st: St, name: str) -> tuple[bool, bool, Any]:
    try:
        return True, *default_of(schema, st)
    except Bad as e:
        b.errors += prefix(e.errors, name)
        return False, False, None
    except (Omitted, UseDefault):
        raise Skip from None


def bind(schema: dict, params: list[dict], var_args: Any, var_kwargs: Any, unpacked: bool, args: Any, kwargs: Any, value: Any, st: St, names: bool) -> tuple:
    """(args, kwargs) as given -> as validated."""
    b = Binding()
    by_loc = st.config.get('loc_by_alias', True)
    source = Source('json' if st.mode == 'json' else 'dict', kwargs) if kwargs is not None else None
    used: set[str] = set()
    behaviour = config_flag(schema, st, 'extra_behavior', 'extra_fields_behavior', 'forbid')
    for index, p in enumerate(params):
        mode, name = mode_of(p), p['name']
        pst = st.but(field_name=name) if names else st
        pos = args[index] if args is not None and mode in POSITIONAL and index < len(args) else MISSING
        path, kw = None, MISSING
        paths = paths_of(schema, p, st)
        if source and mode in KEYWORD:
            path, kw = source.find(paths)
            if path is not None:
                fields.use(used, path, kw)
        if pos is not MISSING and path is not None:
            b.errors.append(err('multiple_argument_values', kw, name))
        elif pos is not MISSING:
            good, v = attempt(b, p['schema'], pos, pst, lambda e: prefix(e, index))
            if good:
                b.args.append(v)
        elif path is not None:
            good, v = attempt(b, p['schema'], kw, pst, lambda e: prefix(e, *(path if by_loc else [name])))
            if good:
                b.kwargs[name] = v
        else:
            good, has, v = default(b, p['schema'], pst, name)
            if has:
                if mode == 'positional_only':
                    b.args.append(v)
                else:
                    b.kwargs[name] = v
            elif good:
                where = [index] if mode == 'positional_only' else paths[0] if by_loc else [name]
                b.errors.append(err(MISSING_ERROR[mode], value, *where))
    taken = {p['name'] for p in params if mode_of(p) in KEYWORD}
    count = sum(mode_of(p) in POSITIONAL for p in params)
    for i in range(count, len(args or ())):
        if var_args is None:
            b.errors.append(err('unexpected_positional_argument', args[i], i))
        else:
            good, v = attempt(b, var_args, args[i], st, lambda e: prefix(e, i))
            if good:
                b.args.append(v)
    rest: dict = {}
    for k, v in (kwargs or {}).items():
        if not isinstance(k, str):
            b.errors.append(err('invalid_key', k, loc_item(k)))
        elif k in used:
            pass
        elif unpacked:
            rest[''.join(k)] = v
        elif var_kwargs is not None:
            good, v = attempt(b, var_kwargs, v, st, lambda e: prefix(e, loc_item(k)))
            if good:
                b.more({''.join(k): v}, taken)
        elif behaviour == 'forbid':
            b.errors.append(err('unexpected_keyword_argument', v, loc_item(k)))
    if unpacked:
        good, v = attempt(b, var_kwargs, rest, st.as_object(), lambda e: e)
        if good:
            b.more(v, taken)
    return b.result()


@node('arguments')
def run_arguments(schema: dict, value: Any, st: St) -> Any:
    args = kwargs = None
    if st.mode == 'strings' or st.as_key:
        raise bad('arguments_type', value)
    if isinstance(value, dict):
        kwargs = value
    elif isinstance(value, pc.ArgsKwargs):
        args, kwargs = value.args, value.kwargs
    elif isinstance(value, (tuple, list)):
        args = tuple(value)
    else:
        raise bad('arguments_type', value)
    return bind(schema, schema['arguments_schema'], schema.get('var_args_schema'), schema.get('var_kwargs_schema'),
                schema.get('var_kwargs_mode') == 'unpacked-typed-dict', args, kwargs, value, st, True)


@node('arguments-v3')
def run_arguments_v3(schema: dict, value: Any, st: St) -> Any:
    params = schema['arguments_schema']
    if st.as_key:
        raise bad('arguments_type', value)
    if isinstance(value, dict) or st.mode == 'python' and isinstance(value, collections.abc.Mapping):
        return from_mapping(schema, params, value, st)
    if isinstance(value, pc.ArgsKwargs):
        of = {mode_of(p): p['schema'] for p in params}
        unpacked = 'var_kwargs_unpacked_typed_dict' in of
        return bind(schema, [p for p in params if not mode_of(p).startswith('var_')], of.get('var_args'),
                    of.get('var_kwargs_uniform') or of.get('var_kwargs_unpacked_typed_dict'), unpacked, value.args, value.kwargs, value, st, False)
    raise bad('arguments_type', value)


def items_of(v: Any, st: St) -> list | None:
    if st.mode == 'json':
        return v if isinstance(v, list) else None
    if st.mode == 'strings':
        raise Skip
    if isinstance(v, (list, tuple, set, frozenset)):
        return list(v)
    if isinstance(v, compose.SEQ_REFUSED):
        return None
    try:
        it = iter(v)
    except TypeError:
        return None
    if fields.has_iterator(v):
        raise Skip
    return list(it)


def from_mapping(schema: dict, params: list[dict], value: Any, st: St) -> tuple:
    b = Binding()
    by_loc = st.config.get('loc_by_alias', True)
    source = Source('json' if st.mode == 'json' else 'dict' if isinstance(value, dict) else 'mapping', value)
    if st.mode == 'strings' and not all(isinstance(v, (str, dict)) for v in value.values()):
        raise Skip
    behaviour = config_flag(schema, st, 'extra_behavior', 'extra_fields_behavior', 'forbid')
    used: set[str] = set()
    taken: set[str] = {p['name'] for p in params if mode_of(p) == 'positional_or_keyword'}
    for p in params:
        mode, name, sub = mode_of(p), p['name'], p['schema']
        paths = paths_of(schema, p, st)
        path, v = source.find(paths)
        if path is None:
            if mode == 'var_kwargs_unpacked_typed_dict':
                good, v = attempt(b, sub, {}, st.as_object(), lambda e: prefix(e, name))
                if good:
                    b.more(v, taken | set(b.kwargs))
            elif not mode.startswith('var_'):
                good, has, v = default(b, sub, st, name)
                if has:
                    if mode == 'keyword_only':
                        b.kwargs[name] = v
                    else:
                        b.args.append(v)
                elif good:
                    b.errors.append(err(MISSING_ERROR[mode], value, *(paths[0] if by_loc else [name])))
            continue
        fields.use(used, path, v)
        if st.mode == 'strings' and not isinstance(v, (str, dict)):
            raise Skip
        where = path if by_loc else [name]
        if mode == 'var_args':
            items = items_of(v, st)
            if items is None:
                b.errors.append(err('tuple_type', v, *where))
                continue
            for i, x in enumerate(items):
                good, x = attempt(b, sub, x, st, lambda e: prefix(e, *where, i))
                if good:
                    b.args.append(x)
        elif mode == 'var_kwargs_uniform':
            if not isinstance(v, dict) or st.mode == 'strings':
                b.errors.append(err('dict_type', v, *where))
                continue
            for k, x in v.items():
                if not isinstance(k, str):
                    b.errors.append(err('invalid_key', k, name, loc_item(k)))
                    continue
                good, x = attempt(b, sub, x, st.as_object(), lambda e: prefix(e, *where, loc_item(k)))
                if good:
                    b.more({k: x}, taken | {q['name'] for q in params if mode_of(q) == 'keyword_only'})
        else:
            good, v = attempt(b, sub, v, st, lambda e: prefix(e, *where))
            if good and mode == 'var_kwargs_unpacked_typed_dict':
                b.more(v, taken | {q['name'] for q in params if mode_of(q) == 'keyword_only'})
            elif good and mode == 'keyword_only':
                b.kwargs[name] = v
            elif good:
                b.args.append(v)
    if behaviour != 'ignore':
        for k, v in source.items():
            if not isinstance(k, str):
                if st.mode == 'strings':
                    raise Skip
                b.errors.append(err('invalid_key', k, loc_item(k)))
            elif k not in used and behaviour == 'forbid':
                b.errors.append(err('extra_forbidden', v, loc_item(k)))
    return b.result()


@node('call')
def run_call(schema: dict, value: Any, st: St) -> Any:
    args, kwargs = run(schema['arguments_schema'], value, st)
    out = mk(schema['function'])(*args, **kwargs)
    if 'return_schema' in schema:
        try:
            return run(schema['return_schema'], out, st.as_object())
        except Bad as e:
            raise Bad(prefix(e.errors, 'return')) from None
    return out


# ------------------------------------------------------------------------------------------------------ generation
NAMES = ['a', 'b', 'c', 'd', 'foo', 'x']


def params_spec(s, mode: str, depth: int, sub: Any, aliases: bool = True) -> list[dict]:
    names = NAMES[s.draw(2):]
    out: list[dict] = []
    optional = False
    for kind, n in (('positional_only', s.draw(3)), ('positional_or_keyword', s.draw(3)), ('keyword_only', s.draw(3))):
        for _ in range(n):
            if not names:
                break
            name = names.pop(0)
            p: dict = {'name': name, 'schema': sub(s, mode, depth - 1)}
            if kind != 'positional_or_keyword' or s.draw(2):
                p['mode'] = kind
            if p['schema']['type'] == 'default':
                p['schema'] = fields.no_omit(p['schema'])
            if kind == 'keyword_only':
                optional = False
            has = lambda q: q['type'] == 'default' and ('default' in q or 'default_factory' in q)  # noqa: E731
            if has(p['schema']) or optional or chance(s, 1, 3):
                if not has(p['schema']):
                    p['schema'] = fields.no_omit(specs.default_spec(s, p['schema'], mode, specs.value_for))
                if not has(p['schema']):
                    p['schema']['default'] = 1
                optional = optional or kind != 'keyword_only'
            if aliases and chance(s, 1, 4):
                p['alias'] = pick(s, fields.ALIASES)
            out.append(p)
    return out


def settings(s, out: dict) -> None:
    if chance(s, 1, 4):
        out['extra_behavior'] = pick(s, ['forbid', 'ignore', 'allow'])
    k = s.draw(8)
    if k == 7:
        out['validate_by_name'] = True
    if k == 6:
        out.update(validate_by_name=True, validate_by_alias=bool(s.draw(2)))


def kwargs_dict(s, mode: str, depth: int) -> dict:
    out = fields.typed_dict_spec(s, mode, max(1, depth), lambda s, m, d: specs.leaf_spec(s))
    out['fields'] = {pick(s, ['y', 'z', 'w', 'v']) + n: f for n, f in list(out['fields'].items())[:2]}
    return out


def arguments_spec(s, mode: str, depth: int, sub: Any) -> dict:
    out: dict = {'type': 'arguments', 'arguments_schema': params_spec(s, mode, depth, sub)}
    settings(s, out)
    if chance(s, 1, 3):
        out['var_args_schema'] = plain(sub(s, mode, depth - 1))
    k = s.draw(6)
    if k == 5:
        out.update(var_kwargs_mode='unpacked-typed-dict', var_kwargs_schema=kwargs_dict(s, mode, depth))
    elif k > 2:
        out['var_kwargs_schema'] = plain(sub(s, mode, depth - 1))
        if s.draw(2):
            out['var_kwargs_mode'] = 'uniform'
    return out


def plain(schema: dict) -> dict:
    while schema['type'] == 'default':
        schema = schema['schema']
    return schema


def arguments_v3_spec(s, mode: str, depth: int, sub: Any) -> dict:
    params = params_spec(s, mode, depth, sub)
    out: dict = {'type': 'arguments-v3', 'arguments_schema': params}
    settings(s, out)
    if chance(s, 1, 3):
        at = sum(mode_of(p) in POSITIONAL for p in params)
        params.insert(at, {'name': 'args', 'mode': 'var_args', 'schema': plain(sub(s, mode, depth - 1))})
    k = s.draw(6)
    if k > 2:
        if k == 5:
            params.append({'name': 'kwargs', 'mode': 'var_kwargs_unpacked_typed_dict', 'schema': kwargs_dict(s, mode, depth)})
        else:
            params.append({'name': 'kwargs', 'mode': 'var_kwargs_uniform', 'schema': plain(sub(s, mode, depth - 1))})
    for p in params:
        if mode_of(p).startswith('var_') and chance(s, 1, 4):
            p['alias'] = pick(s, fields.ALIASES)
    return out


def any_spec(s, mode: str, depth: int, sub: Any) -> dict:
    return (arguments_spec if s.draw(2) else arguments_v3_spec)(s, mode, depth, sub)


def call_spec(s, mode: str, depth: int, sub: Any) -> dict:
    out: dict = {'type': 'call', 'arguments_schema': any_spec(s, mode, depth, sub), 'function': X('cf', pick(s, list(lib.CALLED)))}
    if s.draw(2):
        out['return_schema'] = pick(s, [{'type': 'any'}, sub(s, mode, depth - 1), {'type': 'int'}, {'type': 'list', 'items_schema': {'type': 'int'}}])
    return out


def insert(d: dict, p: dict, v: Any, s, mode: str) -> None:
    paths = fields.alias_paths(p['alias']) if 'alias' in p else []
    path = pick(s, paths) if paths and s.draw(4) else [p['name']]
    if mode == 'strings' and not all(isinstance(x, str) for x in path):
        return
    fields.insert(d, path, v, mode)


def make_arguments(s, spec, mode, noise):
    """Arguments for the parameters, some by position, some by name, some not at all."""
    params = spec['arguments_schema']
    args: list = []
    kwargs: dict = {}
    by_position = True
    given = s.draw(6)
    for i, p in enumerate(params):
        m = mode_of(p)
        if m.startswith('var_'):
            continue
        v = specs.value_for(s, p['schema'], mode, noise)
        if m in POSITIONAL and by_position and (i < given or m == 'positional_only' and s.draw(4)):
            args.append(v)
            if noise and chance(s, 1, 15):
                insert(kwargs, p, specs.value_for(s, p['schema'], mode, noise), s, mode)
            continue
        by_position = False
        if chance(s, 1, 5 if noise else 20):
            continue
        insert(kwargs, p, v, s, mode)
    of = {mode_of(p): p['schema'] for p in params}
    va = spec.get('var_args_schema') or of.get('var_args')
    if by_position and (va or noise and chance(s, 1, 6)):
        for _ in range(s.draw(3)):
            args.append(specs.value_for(s, va, mode, noise) if va else fields.lib_value(s, mode))
    vk = spec.get('var_kwargs_schema') or of.get('var_kwargs_uniform') or of.get('var_kwargs_unpacked_typed_dict')
    if spec.get('var_kwargs_mode') == 'unpacked-typed-dict' or 'var_kwargs_unpacked_typed_dict' in of:
        v = specs.value_for(s, vk, mode, 0)
        if isinstance(v, dict):
            kwargs.update({k: x for k, x in v.items() if k not in kwargs})
    elif vk:
        for k in ['z', 'y', 'foo'][:s.draw(3)]:
            kwargs.setdefault(k, specs.value_for(s, vk, mode, noise))
    while noise and chance(s, 1, 6):
        k = pick(s, ['a', 'b', 'x', 'zz', 'A', ''])
        if mode == 'python' and s.draw(6) == 5:
            k = pick(s, [1, None, (1, 2), b'a'])
        kwargs[k] = fields.lib_value(s, mode)
    if mode != 'python':
        return args if args and not s.draw(3) else kwargs
    k = s.draw(8)
    if k == 7:
        return kwargs
    if k == 6:
        return tuple(args)
    if k == 5 and spec['type'] == 'arguments':
        return args
    if not all(isinstance(k, str) for k in kwargs):
        return kwargs
    return X('ak', args, kwargs if kwargs or s.draw(2) else None)


def make_v3(s, spec, mode, noise):
    if mode == 'python' and s.draw(2):
        return make_arguments(s, spec, mode, noise)
    d: dict = {}
    for p in spec['arguments_schema']:
        if chance(s, 1, 5 if noise else 20):
            continue
        m = mode_of(p)
        if m == 'var_args' and mode == 'strings':
            v: Any = specs.wrong_value(s, mode)
        elif m == 'var_args':
            v = [specs.value_for(s, p['schema'], mode, noise) for _ in range(s.draw(3))]
            if mode == 'python':
                v = [v, tuple(v), X('list', v), X('deque', v)][s.draw(4)]
        elif m == 'var_kwargs_uniform':
            v = {k: specs.value_for(s, p['schema'], mode, noise) for k in ['y', 'z', 'a', 'c'][s.draw(2):][:s.draw(3)]}
            if mode == 'python' and noise and chance(s, 1, 8):
                v[pick(s, [1, b'x', None])] = 1
        else:
            v = specs.value_for(s, p['schema'], mode, noise)
        if m.startswith('var_') and noise and chance(s, 1, 10):
            v = specs.wrong_value(s, mode)
        insert(d, p, v, s, mode)
    while noise and chance(s, 1, 6):
        k = pick(s, ['a', 'b', 'x', 'zz', 'args', ''])
        if mode == 'python' and s.draw(6) == 5:
            k = pick(s, [1, None, (1, 2), b'a'])
        d[k] = specs.small_str(s) if mode == 'strings' else fields.lib_value(s, mode)
    if mode == 'python' and s.draw(5) == 4:
        return X(pick(s, ['mapping', 'dict', 'odict']), d)
    return d


def make_call(s, spec, mode, noise):
    return specs.value_for(s, spec['arguments_schema'], mode, noise)


specs.VALUE_MAKERS.update({'arguments': make_arguments, 'arguments-v3': make_v3, 'call': make_call})


def tree(s, mode: str, depth: int) -> dict:
    k = s.draw(8)
    if depth <= 0 or k < 4:
        return specs.leaf_spec(s) if s.draw(3) else specs.container_spec(s, mode, min(2, max(0, depth)))
    if k == 4:
        return call_spec(s, mode, depth, tree)
    if k == 5:
        return any_spec(s, mode, depth, tree)
    return fields.object_spec(s, mode, depth)
