"""Schemas of every kind, put together at random, and values for them."""

from __future__ import annotations

from typing import Any

import lib
import specs
from core import X
from models import arguments, fields, functions, recursion, unions  # noqa: F401 (they register makers of values)
from specs import JSON_ANY, SCALARS, chance, pick

SECONDS = [0, 1, 60, 3600, 86400, -1, 1.5, 1e9, 2e10]
TIMES = ['12:30', '12:30:45.5Z', '23:59:59+05:30', 'T12', '00:00']
DATES = ['2020-01-01', '1970-01-01T00:00:00', '2020-02-30', '0001-01-01', '9999-12-31']
DATETIMES = ['2020-01-01T12:00', '2020-01-01 12:00:00.123456Z', '1e3', '2020-01-01T25:00', '2023-06-01T00:00:00+23:59']
DELTAS = ['P1D', 'PT1H', '1:2:3', '-P1W', '1 days 2:00', 'x']
URLS = ['http://a.com', 'https://u:p@é.de:81/x?y#z', 'mailto:a', 'x', 'ftp://a/', 'redis://a,b:1', '']
UUIDS = ['12345678-1234-4234-9234-123456789012', '{12345678-1234-1234-1234-123456789012}', 'x' * 32, '0' * 32]


def leaf(s, mode: str = 'python', depth: int = 0) -> dict:
    """A schema without another one in it."""
    if chance(s, 1, 2):
        return specs.leaf_spec(s)
    t = pick(s, KINDS)
    out: dict = {'type': t}
    if t == 'float':
        if chance(s, 1, 2):
            out[pick(s, ['ge', 'gt', 'le', 'lt', 'multiple_of'])] = pick(s, [0.5, 1, 3.0])
        if chance(s, 1, 3):
            out['allow_inf_nan'] = bool(s.draw(2))
    elif t == 'int':
        out[pick(s, ['ge', 'gt', 'le', 'lt', 'multiple_of'])] = pick(s, [1, 3, 10**20])
    elif t == 'decimal':
        k = pick(s, ['ge', 'gt', 'le', 'lt', 'max_digits', 'decimal_places', 'allow_inf_nan', 'multiple_of'])
        out[k] = bool(s.draw(2)) if k == 'allow_inf_nan' else pick(s, [1, 2, 3]) if k in ('max_digits', 'decimal_places') else X('dec', pick(s, ['1', '0.5', '3']))
    elif t == 'str':
        k = pick(s, ['pattern', 'to_upper', 'min_length', 'max_length', 'coerce_numbers_to_str', 'regex_engine'])
        out[k] = pick(s, ['^a', '[0-9]+', 'é|b$']) if k == 'pattern' else s.draw(4) if k.endswith('length') else True
        if k == 'regex_engine':
            out['regex_engine'] = pick(s, ['rust-regex', 'python-re'])
            out['pattern'] = pick(s, ['^a', '[0-9]+'])
    elif t == 'bytes':
        out[pick(s, ['min_length', 'max_length'])] = s.draw(4)
    elif t in ('date', 'datetime'):
        if chance(s, 1, 2):
            out['now_op'] = pick(s, ['past', 'future'])
            out['now_utc_offset'] = pick(s, [0, 3600])
        if t == 'datetime' and chance(s, 1, 3):
            out['tz_constraint'] = pick(s, ['aware', 'naive', 3600])
    elif t == 'time' and chance(s, 1, 2):
        out['tz_constraint'] = pick(s, ['aware', 'naive'])
        out['microseconds_precision'] = pick(s, ['truncate', 'error'])
    elif t == 'uuid' and chance(s, 1, 2):
        out['version'] = pick(s, [1, 3, 4, 5])
    elif t == 'enum':
        cls = pick(s, ['PlainE', 'IntE', 'StrE', 'FloatE', 'MixE'])
        out.update(cls=X('ecls', cls), members=X('members', cls))
        sub = {'IntE': 'int', 'StrE': 'str', 'FloatE': 'float'}.get(cls)
        if sub and s.draw(2):
            out['sub_type'] = sub
    elif t in ('is-instance', 'is-subclass'):
        out['cls'] = X('cls', pick(s, ['int', 'str', 'Opaque']))
    elif t == 'literal':
        out['expected'] = pick(s, [[X('enum', 'IntE', 'ONE'), 'a'], [b'a', 1.5], [X('enum', 'PlainE', 'A')], [10**20, 1], [True, 0]])
    elif t == 'url':
        if chance(s, 1, 2):
            out[pick(s, ['max_length', 'default_port'])] = pick(s, [5, 80, 30])
        if chance(s, 1, 3):
            out['allowed_schemes'] = ['http', 'x']
        if chance(s, 1, 4):
            out['host_required'] = True
    elif t == 'custom-error':
        return {'type': t, 'schema': specs.leaf_spec(s), 'custom_error_type': 'mine', 'custom_error_message': 'no {x}', 'custom_error_context': {'x': 1}}
    elif t == 'json':
        if depth > 0 and s.draw(2):
            out['schema'] = tree(s, 'json', depth - 1)
        elif s.draw(2):
            out['schema'] = specs.leaf_spec(s)
    if chance(s, 1, 8) and t not in ('enum', 'is-instance', 'is-subclass', 'literal', 'custom-error', 'json', 'any', 'none', 'callable'):
        out['strict'] = bool(s.draw(2))
    return out


KINDS = ['int', 'float', 'decimal', 'str', 'bytes', 'date', 'time', 'datetime', 'timedelta', 'uuid', 'complex', 'url', 'multi-host-url', 'enum',
         'is-instance', 'is-subclass', 'literal', 'callable', 'custom-error', 'json', 'bool', 'none', 'any']


def leaf_value(s, spec: dict, mode: str) -> Any:
    t = spec['type']
    known = {'time': TIMES, 'datetime': DATETIMES, 'timedelta': DELTAS, 'url': URLS, 'multi-host-url': URLS, 'uuid': UUIDS, 'date': DATES,
             'complex': ['1', '1+2j', 'nan', '(1j)', 'x'], 'json': ['1', '[1,2]', '{"a": 1}', '"x"', '{', '[1', 'NaN', '"\\ud800"']}
    if t in known and (mode == 'strings' or chance(s, 1, 2)):
        return pick(s, known[t])
    if mode == 'strings':
        return specs.small_str(s)
    if t in ('date', 'time', 'datetime', 'timedelta') and chance(s, 1, 2):
        return pick(s, SECONDS)
    if mode == 'json':
        return JSON_ANY.do(s)
    own = {'time': [X('t', 12, 30, 0, 0, None), X('t', 1, 2, 3, 4, 'utc')], 'datetime': [X('dt', 2020, 1, 1, 0, 0, 0, 0), X('dt', 1969, 1, 1, 0, 0, 0, 5, 'utc')],
           'timedelta': [X('td', 1, 2, 3), X('tdsub', 0, 5, 0)], 'complex': [X('cplx', 1.0, 2.0), 1, 2.5], 'url': [X('url', 'http://b.com/')],
           'multi-host-url': [X('murl', 'redis://a,b')], 'enum': [X('enum', 'PlainE', 'A'), X('enum', 'IntE', 'ONE'), X('enum', 'StrE', 'A'), 1, 'a'],
           'is-subclass': [X('cls', 'int'), X('cls', 'Opaque')], 'is-instance': [1, 'a', X('opaque')], 'callable': [X('fn'), X('cls', 'int')],
           'json': [b'[1]', X('ba', b'{"a": [1]}'), b'\xff', '[1]']}.get(t)
    if own and chance(s, 2, 3):
        return pick(s, own)
    if t in ('int', 'str', 'float', 'bool', 'bytes', 'date', 'decimal', 'uuid', 'none', 'any', 'literal') and s.draw(3):
        return ORIGINAL(s, spec, mode)
    return SCALARS.do(s)


ORIGINAL = specs.leaf_value


OLD = {'int', 'str', 'float', 'bool', 'bytes', 'date', 'decimal', 'uuid', 'none', 'any', 'literal'}
for _t in ('time', 'datetime', 'timedelta', 'complex', 'url', 'multi-host-url', 'enum', 'is-subclass', 'is-instance', 'callable', 'json'):
    specs.VALUE_MAKERS.setdefault(_t, lambda s, spec, mode, noise: leaf_value(s, spec, mode))



def leaf_or_more(s, spec, mode):
    return ORIGINAL(s, spec, mode) if spec['type'] in OLD else leaf_value(s, spec, mode)


specs.leaf_value = leaf_or_more


def json_able(v: Any) -> bool:
    """Whether the literal stands for a JSON value (its keys may be anything `json.dumps` takes)."""
    if isinstance(v, dict):
        return all(k is None or type(k) in (str, int, float, bool) for k in v) and all(map(json_able, v.values()))
    if isinstance(v, list):
        return all(map(json_able, v))
    return v is None or type(v) in (str, int, float, bool)


def as_json(s, v: Any) -> Any:
    """The value with everything JSON hasn't got replaced."""
    if isinstance(v, dict):
        return {k if type(k) in (str, int) else str(k): as_json(s, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)) and not isinstance(v, X):
        return [as_json(s, x) for x in v]
    return v if json_able(v) else JSON_ANY.do(s)


def tree(s, mode: str, depth: int) -> dict:
    k = s.draw(16)
    if depth <= 0 or k < 2:
        return leaf(s, mode, depth)
    if k < 6:
        return pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, mode, depth, tree)
    if k < 8:
        return functions.wrapper_spec(s, mode, depth, tree)
    if k == 8:
        return unions.union_spec(s, mode, depth, tree)
    if k == 9:
        return unions.tagged_spec(s, mode, depth, tree)
    if k == 10:
        return arguments.any_spec(s, mode, depth, tree) if s.draw(2) else arguments.call_spec(s, mode, depth, tree)
    sub = tree(s, mode, depth - 1)
    kind = pick(s, ['list', 'dict', 'tuple', 'set', 'frozenset', 'nullable', 'default', 'generator', 'list', 'dict'])
    b = specs.bounds(s) if chance(s, 1, 3) else {}
    if kind == 'dict':
        out = {'type': 'dict', 'values_schema': sub, **b}
        if s.draw(2):
            out['keys_schema'] = functions.leaf(s, mode, 0)
        return out
    if kind == 'tuple':
        return {'type': 'tuple', 'items_schema': [sub, leaf(s, mode, 0)], **({'variadic_item_index': s.draw(2)} if s.draw(2) else {})}
    if kind == 'nullable':
        return {'type': 'nullable', 'schema': sub}
    if kind == 'default':
        return functions.default_spec(s, mode, depth, lambda *_: sub)
    out = {'type': kind, 'items_schema': sub, **b}
    if chance(s, 1, 6) and kind != 'generator':
        out['fail_fast'] = True
    return out


CONFIG = {'strict': [True, False], 'str_to_lower': [True], 'str_strip_whitespace': [True], 'str_max_length': [2], 'allow_inf_nan': [True, False],
          'ser_json_bytes': ['base64', 'hex'], 'val_json_bytes': ['base64', 'hex', 'utf8'], 'revalidate_instances': ['always', 'never', 'subclass-instances'], 'validate_default': [True],
          'extra_fields_behavior': ['allow', 'forbid', 'ignore'], 'from_attributes': [True], 'coerce_numbers_to_str': [True], 'hide_input_in_errors': [True],
          'validate_by_name': [True], 'loc_by_alias': [False], 'val_temporal_unit': ['seconds', 'milliseconds', 'infer'], 'regex_engine': ['python-re'], 'cache_strings': ['none', 'keys', 'all', True, False],
          'title': ['T']}


def config(s) -> dict:
    return {k: pick(s, CONFIG[k]) for k in (pick(s, sorted(CONFIG)) for _ in range(s.draw(3)))}


def case_of(mode: str, depth: int = 3, noises=(8, 20, 0)):
    def go(s):
        spec = tree(s, mode, s.draw(depth + 1))
        value = specs.value_for(s, spec, mode, pick(s, noises))
        case = {'schema': spec, 'value': as_json(s, value) if mode == 'json' else value, 'mode': mode}
        if chance(s, 1, 3):
            case['config'] = config(s)
        k = s.draw(10)
        if k == 9:
            case['strict'] = bool(s.draw(2))
        elif k == 8 and mode == 'python':
            case['from_attributes'] = bool(s.draw(2))
        elif k == 7:
            case['context'] = {'ctx': 1}
        return case

    return go


lib.BUILDERS.setdefault('ecls', lambda name: lib.ENUMS[name])
lib.BUILDERS.setdefault('members', lambda name: list(lib.ENUMS[name]))
