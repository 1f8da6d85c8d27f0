"""Schema-directed generation: draws a core schema spec and values that mostly fit it.

Everything works on a gen.Source `s` (`s.draw(n)`: an integer below n), so shrinking applies."""

from __future__ import annotations

import math
from typing import Any

import gen as st
import lib
from core import X

SCALARS = lib.scalars()
JSON_SCALARS = lib.json_scalars()
TEXTS = lib.texts(5)
JSON_ANY = lib.json_values(4)

NAMES = ['a', 'b', 'c', 'x', 'foo', 'a.b', '']


def pick(s, xs):
    return xs[s.draw(len(xs))]


def chance(s, num: int, den: int) -> bool:
    return s.draw(den) >= den - num  # shrinks towards False


SMALL_STRS = ['', 'a', 'b', 'ab', ' a ', '1', '12', '-3', '1.5', 'true', 'x', 'yes', '2020-01-01', 'é', 'abc', 'None', '0']


def small_str(s):
    return pick(s, SMALL_STRS)


# --------------------------------------------------------------------------------------------------------- leaves
def leaf_spec(s, json_keys: bool = False) -> dict:
    k = s.draw(9 if json_keys else 16)
    if k == 0:
        return {'type': 'int'}
    if k == 1:
        return {'type': 'str'}
    if k == 2:
        return {'type': 'int', 'ge': s.draw(3), 'lt': 3 + s.draw(5)}
    if k == 3:
        return {'type': 'str', 'min_length': s.draw(3), 'max_length': 2 + s.draw(2)}
    if k == 4:
        return {'type': 'bool'}
    if k == 5:
        return {'type': 'float'}
    if k == 6:
        return {'type': 'int', 'strict': True} if not json_keys else {'type': 'int'}
    if k == 7:
        return {'type': 'str', 'to_lower': True, 'strip_whitespace': True}
    if k == 8:
        return {'type': 'date'}
    if k == 9:
        return {'type': 'any'}
    if k == 10:
        return {'type': 'none'}
    if k == 11:
        return {'type': 'literal', 'expected': pick(s, [['a', 1], [1, 2, 3], ['a', 'b', 'ab'], [True, 'x'], [None, 'a']])}
    if k == 12:
        return {'type': 'bytes'}
    if k == 13:
        return {'type': 'str', 'strict': True}
    if k == 14:
        return {'type': 'decimal'}
    return {'type': 'uuid'}


def leaf_value(s, spec: dict, mode: str) -> Any:
    t = spec['type']
    if mode == 'strings':
        return pick(s, {
            'int': ['1', '2', '0', '-1', '12', '5', '3.0'],
            'float': ['1', '1.5', '-2', '1e3'],
            'bool': ['true', '0', 'no', '1'],
            'date': ['2020-01-01', '1999-12-31', '0'],
            'uuid': ['12345678-1234-1234-1234-123456789012', '0' * 32],
            'decimal': ['1', '1.50', '-0.0'],
        }.get(t, SMALL_STRS))
    if t == 'int':
        if mode == 'json':
            return pick(s, [0, 1, 2, 3, 5, 7, -1, '1', 4.0, True, 10**20])
        return pick(s, [0, 1, 2, 3, 5, 7, -1, '1', b'2', 4.0, True, 10**20, X('int', 2), X('enum', 'IntE', 'ONE')])
    if t == 'str':
        if mode == 'json' or not chance(s, 1, 6):
            return small_str(s)
        return pick(s, [b'ab', X('str', 'ab'), X('enum', 'StrE', 'A'), X('ba', b'a')])
    if t == 'float':
        return pick(s, [0.0, 1.5, -2.25, 3, '1.5', True, 1e300])
    if t == 'bool':
        return pick(s, [True, False, 0, 1, 'yes', 'off', 1.0])
    if t == 'none':
        return None
    if t == 'literal':
        return pick(s, list(spec['expected']))
    if t == 'bytes':
        return pick(s, ['ab', '', 'é'] if mode == 'json' else [b'ab', b'', 'ab', X('bytes', b'x'), X('ba', b'zz')])
    if t == 'date':
        return pick(s, ['2020-01-01', 0, 86400, '1999-12-31'] if mode == 'json' else [X('d', 2020, 1, 1), '2020-01-01', 0, X('dt', 2020, 1, 1, 0, 0, 0, 0)])
    if t == 'decimal':
        return pick(s, ['1.5', 1, 2.5, '1.50'] if mode == 'json' else ['1.5', 1, 2.5, X('dec', '1.50')])
    if t == 'uuid':
        u = '12345678-1234-1234-1234-123456789012'
        return pick(s, [u] if mode == 'json' else [u, X('uuid', 5), b'\1' * 16])
    if t == 'any':
        return JSON_ANY.do(s) if mode == 'json' else SCALARS.do(s)
    raise AssertionError(t)


def wrong_value(s, mode: str) -> Any:
    if mode == 'strings':
        return small_str(s) if s.draw(2) else {small_str(s): small_str(s) for _ in range(s.draw(3))}
    if mode == 'json':
        return JSON_ANY.do(s)
    k = s.draw(8)
    if k < 4:
        return SCALARS.do(s)
    if k == 4:
        return [SCALARS.do(s) for _ in range(s.draw(3))]
    if k == 5:
        return {small_str(s): SCALARS.do(s) for _ in range(s.draw(3))}
    return pick(s, [X('opaque'), X('set', {1}), (1, 'a'), {1, 2}, X('gen', [1]), X('mapping', {'a': 1}), X('fn'), X('attrs', {'a': 1}), None, 'ab', b'ab'])


def twice(spec_value: Any) -> tuple[Any, Any]:
    """The object a case stands for, for two independent uses."""
    a = lib.mk(spec_value)
    if literal_only(spec_value):
        return a, a
    if has_set(spec_value):
        raise lib.Skip  # iterators can be used once only, sets built twice may be in another order
    return a, lib.mk(spec_value)


# ------------------------------------------------------------------------------------------------------ containers
def bounds(s) -> dict:
    out: dict = {}
    k = s.draw(6)
    if k in (2, 4):
        out['min_length'] = s.draw(4)
    if k in (3, 4):
        out['max_length'] = out.get('min_length', 0) + s.draw(4)
    return out


def default_spec(s, sub: dict, mode: str, draw_value) -> dict:
    out: dict = {'type': 'default', 'schema': sub}
    k = s.draw(5)
    if k > 0:
        out['default'] = draw_value(s, sub, 'python') if s.draw(3) else pick(s, [[1, 2], {'a': []}, 'dft', 7, None])
        if not literal_only(out['default']) or 'nan' in repr(out['default']).lower() or any(k in repr(out['default']) for k in ("'keys'", "'values'", "'items'", "X('ak'")) or has_set(out['default']):
            out['default'] = 7  # not something that can be copied
    how = s.draw(4)
    if how == 1:
        out['on_error'] = 'omit'
    elif how == 2 and k > 0:
        out['on_error'] = 'default'
    elif how == 3:
        out['on_error'] = 'raise'
    if s.draw(4) == 3:
        out['validate_default'] = True
    return out


def has_set(x: Any) -> bool:
    if isinstance(x, X):
        return any(map(has_set, x.args))
    if isinstance(x, (set, frozenset)):
        return len(x) > 1
    if isinstance(x, (list, tuple)):
        return any(map(has_set, x))
    if isinstance(x, dict):
        return any(map(has_set, x)) or any(map(has_set, x.values()))
    return False


def literal_only(x: Any) -> bool:
    if isinstance(x, X):
        return x.kind not in ('gen', 'badgen', 'iter', 'fn', 'mv') and all(map(literal_only, x.args))
    if isinstance(x, (list, tuple, set, frozenset)):
        return all(map(literal_only, x))
    if isinstance(x, dict):
        return all(map(literal_only, x.keys())) and all(map(literal_only, x.values()))
    return True


def container_spec(s, mode: str, depth: int) -> dict:
    """A list/tuple/set/frozenset/dict/nullable/default tree over leaves."""
    if depth == 0 or (depth < 3 and chance(s, 1, 3)):
        return leaf_spec(s)
    k = s.draw(8)
    if k == 0:
        out: dict = {'type': 'list', **bounds(s)}
        if s.draw(6):
            out['items_schema'] = container_spec(s, mode, depth - 1)
    elif k == 1:
        out = {'type': 'tuple', 'items_schema': [container_spec(s, mode, depth - 1) for _ in range(s.draw(4))]}
        if out['items_schema'] and s.draw(2):
            out['variadic_item_index'] = s.draw(len(out['items_schema']))
            if chance(s, 1, 3):
                out.update(bounds(s))
    elif k in (2, 3):
        out = {'type': 'set' if k == 2 else 'frozenset', **bounds(s)}
        if s.draw(6):
            out['items_schema'] = container_spec(s, mode, min(depth - 1, 1))
    elif k in (4, 5):
        out = {'type': 'dict', **bounds(s)}
        if s.draw(5):
            key = leaf_spec(s, json_keys=mode != 'python')
            if s.draw(5) == 4:
                key = default_spec(s, key, mode, value_for)
            out['keys_schema'] = key
        if s.draw(6):
            out['values_schema'] = container_spec(s, mode, depth - 1)
        if s.draw(6) == 5:
            out['strict'] = bool(s.draw(2))
        return out
    elif k == 6:
        return {'type': 'nullable', 'schema': container_spec(s, mode, depth - 1)}
    else:
        return default_spec(s, container_spec(s, mode, depth - 1), mode, value_for)
    j = s.draw(6)
    if j == 5:
        out['strict'] = bool(s.draw(2))
    elif j == 4:
        out['fail_fast'] = True
    return out


VALUE_MAKERS: dict[str, Any] = {}


def value_for(s, spec: dict, mode: str, noise: int = 8) -> Any:
    """A value that mostly fits `spec`; about one node in `noise` gets something else."""
    if noise and chance(s, 1, noise):
        return wrong_value(s, mode)
    t = spec['type']
    maker = VALUE_MAKERS.get(t)
    if maker is not None:
        return maker(s, spec, mode, noise)
    if t in ('list', 'set', 'frozenset', 'tuple', 'generator'):
        return seq_value(s, spec, mode, noise)
    if t == 'dict':
        n = s.draw(5)
        keys = spec.get('keys_schema') or {'type': 'str'}
        vals = spec.get('values_schema') or {'type': 'any'}
        if keys['type'] == 'default':
            keys = keys['schema']
        kmode = 'strings' if mode == 'json' else mode
        d = {}
        for _ in range(n):
            k = leaf_value(s, keys, kmode) if keys['type'] != 'any' or mode != 'python' else pick(s, ['a', 1, 2.5, None, (1, 2), X('enum', 'PlainE', 'A')])
            if not hashable(k):
                continue
            d[k] = value_for(s, vals, mode, noise)
        if mode == 'python':
            w = s.draw(9)
            if w >= 6:
                return X(('dict', 'odict', 'mapping')[w - 6], d)
        return d
    if t == 'nullable':
        return None if s.draw(3) == 2 and mode != 'strings' else value_for(s, spec['schema'], mode, noise)
    if t == 'default':
        return value_for(s, spec['schema'], mode, noise)
    return leaf_value(s, spec, mode)


def hashable(x: Any) -> bool:
    if not literal_only(x) or any(f"X('{k}'" in repr(x) for k in ('keys', 'values', 'items')):
        return False  # hashed by identity
    try:
        hash(lib.mk(x))
        hash(x)
        return True
    except TypeError:
        return False


def seq_value(s, spec: dict, mode: str, noise: int) -> Any:
    t = spec['type']
    if t == 'tuple':
        schemas = spec['items_schema']
        var = spec.get('variadic_item_index')
        if var is not None:
            schemas = schemas[:var] + [schemas[var]] * s.draw(4) + schemas[var + 1 :]
        items = [value_for(s, x, mode, noise) for x in schemas]
        k = s.draw(10)
        if k == 9:
            items.append(wrong_value(s, mode))
        elif k >= 7 and items:
            items = items[: s.draw(len(items))]
    else:
        sub = spec.get('items_schema') or {'type': 'any'}
        items = [value_for(s, sub, mode, noise) for _ in range(s.draw(5))]
    if mode == 'strings':
        return {str(i): v for i, v in enumerate(items)} if s.draw(2) else small_str(s)
    if mode != 'python':
        return items
    own = {'list': 0, 'tuple': 1, 'set': 2, 'frozenset': 3, 'generator': 0}[t]
    k = s.draw(16)
    if k < 7:
        k = own
    else:
        k -= 7
    if k in (2, 3, 8) and not all(hashable(i) for i in items):
        k = 0
    if k == 0:
        return items
    if k == 1:
        return tuple(items)
    if k == 2:
        return X('set', set(items)) if s.draw(3) == 2 else set(items)
    if k == 3:
        return frozenset(items)
    if k == 4:
        return X(('list', 'tuple', 'seq')[s.draw(3)], items)
    if k == 5:
        return X('deque', items)
    if k == 6:
        return X('gen', items)
    if k == 7:
        return X('badgen', items)
    return X(('keys', 'values', 'items')[s.draw(3)], {i: 1 for i in items})
