"""Generation for serialization: a core schema, a value that mostly fits it (as validation would have produced it), filters
that name parts of the value, and call options."""

from __future__ import annotations

from typing import Any

import lib
from core import X
from specs import SCALARS, chance, hashable, pick

FIELD_NAMES = ['a', 'b', 'c']
LEAVES = ['int', 'str', 'bool', 'float', 'none', 'bytes', 'date', 'datetime', 'time', 'timedelta', 'uuid', 'decimal', 'any', 'literal', 'enum',
          'url', 'multi-host-url', 'complex', 'custom-error', 'is-instance', 'callable', 'json']
PLAIN_LEAVES = ['int', 'str', 'bool', 'float', 'bytes', 'date', 'datetime', 'timedelta', 'uuid', 'any', 'none']


def leaf_spec(s, keys: bool = False) -> dict:
    k = pick(s, PLAIN_LEAVES if keys or s.draw(3) else LEAVES)
    if k == 'literal':
        return {'type': 'literal', 'expected': pick(s, [['a', 1], [1, 2, 3], ['a', 'b'], [None, 'a']])}
    if k == 'enum':
        c = pick(s, ['PlainE', 'IntE', 'StrE', 'MixE'])
        out: dict = {'type': 'enum', 'cls': X('enumcls', c), 'members': [X('enum', c, m.name) for m in lib.ENUMS[c]]}
        if c in ('IntE', 'StrE') and s.draw(2):
            out['sub_type'] = 'int' if c == 'IntE' else 'str'
        return out
    if k == 'custom-error':
        return {'type': 'custom-error', 'schema': leaf_spec(s), 'custom_error_type': 'x', 'custom_error_message': 'y'}
    if k == 'is-instance':
        return {'type': 'is-instance', 'cls': X('cls', 'Opaque')}
    if k == 'json':
        return {'type': 'json', 'schema': leaf_spec(s)} if s.draw(2) else {'type': 'json'}
    return {'type': k}


def leaf_value(s, spec: dict) -> Any:
    t = spec['type']
    if t == 'int':
        return pick(s, [0, 1, -1, 2, 10**20, -(2**63), X('int', 3), True, X('enum', 'IntE', 'ONE')])
    if t == 'str':
        return pick(s, ['', 'a', 'b', 'é"\\\n', 'cc', '\x00\u2028😀', X('str', 'sub'), X('enum', 'StrE', 'A')])
    if t == 'bool':
        return bool(s.draw(2))
    if t == 'float':
        return pick(s, [0.0, 1.5, -2.25, 1e300, 1e-7, 3, float('inf'), float('nan'), -0.0, X('float', 2.5), 1e16])
    if t == 'none':
        return None
    if t == 'bytes':
        return pick(s, [b'', b'ab', b'\xc3\xa9', b'>>>???', b'abcd1', X('bytes', b'xx')])
    if t == 'date':
        return pick(s, [X('d', 2020, 1, 2), X('d', 1, 1, 1), X('dt', 2020, 1, 1, 1, 2, 3, 4)])
    if t == 'datetime':
        return pick(s, [X('dt', 2020, 1, 2, 3, 4, 5, 6), X('dt', 1999, 12, 31, 0, 0, 0, 0, 'utc'), X('dt', 1, 1, 1, 0, 0, 0, 120, 3600),
                        X('dt', 2020, 2, 2, 2, 2, 2, 2, -19800)])
    if t == 'time':
        return pick(s, [X('t', 1, 2, 3, 0), X('t', 0, 0, 0, 4000, 'utc'), X('t', 23, 59, 59, 999999, -3600)])
    if t == 'timedelta':
        return pick(s, [X('td', 0, 0, 0), X('td', 1, 2, 3), X('td', -1, 5, 0), X('td', 400, 0, 500000), X('td', -400, 86399, 999999)])
    if t == 'uuid':
        return X('uuid', pick(s, [0, 5, 2**127 + 9]))
    if t == 'decimal':
        return pick(s, [X('dec', '1.50'), lib.Decimal('1E+3'), lib.Decimal('-0.0'), lib.Decimal('NaN')])
    if t == 'literal':
        return pick(s, spec['expected'])
    if t == 'enum':
        return pick(s, spec['members'])
    if t == 'url':
        return X('url', pick(s, ['http://a.b/c', 'https://é.com/?q=1']))
    if t == 'multi-host-url':
        return X('murl', 'redis://a:1,b:2/0')
    if t == 'complex':
        return X('cplx', pick(s, [0.0, 1.5, -2.0]), pick(s, [1.0, -0.0, 2.5]))
    if t == 'is-instance':
        return X('opaque')
    if t == 'callable':
        return X('fn')
    if t in ('custom-error', 'json'):
        return leaf_value(s, spec.get('schema') or {'type': 'any'})
    if t == 'any':
        return any_value(s, 2)
    raise AssertionError(t)


def any_value(s, depth: int = 2) -> Any:
    k = s.draw(8 if depth else 3)
    if k < 3:
        t = pick(s, ['int', 'str', 'bool', 'float', 'none', 'bytes', 'date', 'datetime', 'time', 'timedelta', 'uuid', 'decimal', 'complex', 'url', 'enum'])
        return leaf_value(s, {'type': t, 'members': [X('enum', 'PlainE', 'A'), X('enum', 'MixE', 'tup'), X('enum', 'PlainE', 'B')]})
    if k < 5:
        items = [any_value(s, depth - 1) for _ in range(s.draw(4))]
        w = s.draw(6)
        return items if w < 2 else tuple(items) if w == 2 else X('list', items) if w == 3 else \
            (set(items) if w == 4 else frozenset(items)) if all(map(hashable, items)) else items
    if k < 7:
        return {pick(s, ['a', 'b', 'c', 1, -3, X('d', 2020, 1, 1), None, True, 1.5, b'k', X('enum', 'PlainE', 'B'), (1, 'x'), X('uuid', 3)] if s.draw(3) == 2 else ['a', 'b', 'c', 'd']):
                any_value(s, depth - 1) for _ in range(s.draw(4))}
    return X('dci', pick(s, ['D0', 'D1', 'D2']), {f: any_value(s, 0) for f in FIELD_NAMES[:2]} | {'c': 1} if True else {})


def fix_dci(cls: str, fields: dict) -> X:
    return X('dci', cls, {f: fields.get(f) for f in lib.DC_FIELDS[cls]})


class G:
    """What a test wants generated."""

    def __init__(self, **kw: Any):
        self.unions = kw.get('unions', True)
        self.functions = kw.get('functions', False)
        self.schema_filters = kw.get('schema_filters', False)
        self.computed = kw.get('computed', True)
        self.noise = kw.get('noise', 20)
        self.in_model = False
        self.config = kw.get('config', True)


def spec(s, g: G, depth: int) -> dict:
    out = spec_(s, g, depth)
    if g.functions and 'serialization' not in out and out['type'] not in ('default', 'definition-ref') and chance(s, 1, 5):
        out = {**out, 'serialization': ser_function(s, g)}
    return out


def ser_function(s, g: G) -> dict:
    k = s.draw(8)
    if k == 0:
        return {'type': 'to-string', **when(s)}
    if k == 1:
        return {'type': 'format', 'formatting_string': pick(s, ['', '>6', '0.1f', 's', 'd']), **when(s)}
    wrap = k >= 5
    names = [n for n in lib.SER_FUNCTIONS if n[0] == ('w' if wrap else 'p') and (g.in_model or n.split('_')[0][1:] not in ('f', 'fi'))]
    name = pick(s, names)
    out: dict = {'type': 'function-wrap' if wrap else 'function-plain', 'function': X('sf', name), **when(s)}
    flags = name.split('_')[0][1:]
    if 'f' in flags:
        out['is_field_serializer'] = True
    if 'i' in flags:
        out['info_arg'] = True
    if s.draw(3) == 2:
        out['return_schema'] = leaf_spec(s) if s.draw(2) else {'type': 'list'}
    if wrap and s.draw(4) == 3:
        out['schema'] = leaf_spec(s)
    return out


def when(s) -> dict:
    k = s.draw(6)
    return {} if k < 2 else {'when_used': ('always', 'unless-none', 'json', 'json-unless-none')[k - 2]}


def schema_filter(s, g: G, keys: list) -> dict:
    if not g.schema_filters or not chance(s, 1, 3):
        return {}
    isd = any(not isinstance(k, int) for k in keys)
    out: dict = {'type': 'include-exclude-dict' if isd else 'include-exclude-sequence'}
    k = s.draw(3)
    if k != 1:
        out['include'] = {x for x in keys if s.draw(2)}
    if k != 0:
        out['exclude'] = {x for x in keys if s.draw(3) == 2}
    return {'serialization': out}


def spec_(s, g: G, depth: int) -> dict:
    if depth == 0 or (depth < 3 and chance(s, 1, 4)):
        return leaf_spec(s)
    k = s.draw(15)
    if k == 0:
        out: dict = {'type': 'list', **schema_filter(s, g, [0, 1, 2, 3])}
        if s.draw(6):
            out['items_schema'] = spec(s, g, depth - 1)
        return out
    if k in (1, 2):
        out = {'type': 'dict', **schema_filter(s, g, ['a', 'b', 'c', 1])}
        if s.draw(3) == 2:
            out['keys_schema'] = leaf_spec(s, True)
        if s.draw(5):
            out['values_schema'] = spec(s, g, depth - 1)
        return out
    if k == 3:
        n = 1 + s.draw(3)
        out = {'type': 'tuple', 'items_schema': [spec(s, g, depth - 1) for _ in range(n)], **schema_filter(s, g, [0, 1, 2, 3])}
        if s.draw(2):
            out['variadic_item_index'] = s.draw(n)
        return out
    if k == 4:
        return {'type': pick(s, ['set', 'frozenset']), 'items_schema': leaf_spec(s, True) if s.draw(3) else {'type': 'tuple', 'items_schema': [leaf_spec(s, True), leaf_spec(s, True)]}}
    if k == 5:
        return {'type': 'nullable', 'schema': spec(s, g, depth - 1)}
    if k == 6:
        return with_default(s, g, spec(s, g, depth - 1))
    if k in (7, 8, 9):
        return model_spec(s, g, depth)
    if k == 10:
        return dataclass_spec(s, g, depth)
    if k == 11:
        return typed_dict_spec(s, g, depth)
    if k == 12:
        return {'type': 'generator', 'items_schema': spec(s, g, depth - 1), **schema_filter(s, g, [0, 1, 2, 3])}
    if k == 13 and g.unions:
        n = 2 + s.draw(2)
        out = {'type': 'union', 'choices': [spec(s, g, depth - 1) for _ in range(n)]}
        return out
    if k == 14 and g.unions:
        return tagged_spec(s, g, depth)
    return {'type': 'list', 'items_schema': spec(s, g, depth - 1)}


def config(s) -> dict:
    out: dict = {}
    if s.draw(4) == 3:
        out['ser_json_bytes'] = pick(s, ['utf8', 'base64', 'hex'])
    if s.draw(4) == 3:
        out['ser_json_timedelta'] = pick(s, ['iso8601', 'float'])
    if s.draw(4) == 3:
        out['ser_json_inf_nan'] = pick(s, ['null', 'constants', 'strings'])
    if s.draw(4) == 3:
        out['serialize_by_alias'] = bool(s.draw(2))
    return out


def with_default(s, g: G, sub: dict) -> dict:
    d = value(s, sub, G(noise=10))
    if not fresh_ok(d):
        d = 7
    return {'type': 'default', 'schema': sub, 'default': d}


def fresh_ok(x: Any) -> bool:
    return not any(f"X('{k}'" in repr(x) for k in ('gen', 'iter', 'fn', 'mv', 'inst')) and 'nan' not in repr(x)


def field_specs(s, g: G, depth: int, kind: str, names: list[str]) -> dict:
    inner = G(**g.__dict__)
    inner.in_model = kind != 'typed-dict' or g.in_model
    out = {}
    for i, n in enumerate(names):
        sub = spec(s, inner, depth - 1)
        if sub['type'] != 'default' and s.draw(3) == 2:
            sub = with_default(s, inner, sub)
        f: dict = {'type': {'model': 'model-field', 'dataclass': 'dataclass-field', 'typed-dict': 'typed-dict-field'}[kind], 'schema': sub}
        if kind == 'dataclass':
            f['name'] = n
        if s.draw(4) == 3:
            f['serialization_alias'] = n.upper()
        if s.draw(12) == 11:
            f['serialization_exclude'] = True
        if kind == 'typed-dict' and s.draw(3) == 2:
            f['required'] = bool(s.draw(2))
        out[n] = f
    return out


def computed(s, g: G) -> dict:
    if not g.computed or s.draw(3) < 2:
        return {}
    out = []
    for p, ts in (('p_len', [{'type': 'int'}, {'type': 'any'}, {'type': 'str'}]), ('p_none', [{'type': 'any'}, {'type': 'nullable', 'schema': {'type': 'int'}}]),
                  ('p_obj', [{'type': 'any'}, {'type': 'dict'}])):
        if s.draw(2):
            c: dict = {'type': 'computed-field', 'property_name': p, 'return_schema': pick(s, ts)}
            if s.draw(2):
                c['alias'] = p.upper()
            out.append(c)
    return {'computed_fields': out} if out else {}


def model_spec(s, g: G, depth: int) -> dict:
    cls = pick(s, ['M0', 'M1', 'M2'])
    if s.draw(6) == 5:
        return {'type': 'model', 'cls': X('class', 'M3'), 'root_model': True, 'schema': spec(s, g, depth - 1)}
    fs: dict = {'type': 'model-fields', 'fields': field_specs(s, g, depth, 'model', FIELD_NAMES[: s.draw(4)]), **computed(s, g)}
    k = s.draw(4)
    if k >= 2:
        fs['extra_behavior'] = 'allow'
        if k == 3:
            fs['extras_schema'] = spec(s, g, 1)
    out = {'type': 'model', 'cls': X('class', cls), 'schema': fs}
    if k >= 2:
        out['extra_behavior'] = 'allow'  # both say so
    if g.config and s.draw(4) == 3:
        out['config'] = config(s)
    return out


def dataclass_spec(s, g: G, depth: int) -> dict:
    cls = pick(s, ['D0', 'D1', 'D2'])
    fs = field_specs(s, g, depth, 'dataclass', lib.DC_FIELDS[cls])
    out: dict = {'type': 'dataclass', 'cls': X('class', cls), 'fields': lib.DC_FIELDS[cls],
                 'schema': {'type': 'dataclass-args', 'dataclass_name': cls, 'fields': list(fs.values()), **computed(s, g)}}
    if cls == 'D2':
        out['slots'] = True
    if g.config and s.draw(5) == 4:
        out['config'] = config(s)
    return out


def typed_dict_spec(s, g: G, depth: int) -> dict:
    out: dict = {'type': 'typed-dict', 'fields': field_specs(s, g, depth, 'typed-dict', FIELD_NAMES[: 1 + s.draw(3)])}
    k = s.draw(4)
    if k >= 2:
        out['extra_behavior'] = 'allow'
        if k == 3:
            out['extras_schema'] = spec(s, g, 1)
    if s.draw(4) == 3:
        out['total'] = False
    return out


def tagged_spec(s, g: G, depth: int) -> dict:
    choices = {}
    for i in range(1 + s.draw(3)):
        sub = model_spec(s, g, depth - 1) if depth > 1 and s.draw(2) else typed_dict_spec(s, g, max(depth - 1, 1))
        if sub.get('root_model'):
            sub = typed_dict_spec(s, g, max(depth - 1, 1))
        f = sub['schema']['fields'] if sub['type'] == 'model' else sub['fields']
        f['kind'] = {'type': 'model-field' if sub['type'] == 'model' else 'typed-dict-field', 'schema': {'type': 'str'}}
        choices[f'k{i}'] = sub
    return {'type': 'tagged-union', 'discriminator': 'kind', 'choices': choices}


# ------------------------------------------------------------------------------------------------------------ values
def value(s, sp: dict, g: G) -> Any:
    if g.noise and chance(s, 1, g.noise):
        return any_value(s, 2)
    t = sp['type']
    if t == 'list':
        return [value(s, sp.get('items_schema') or {'type': 'any'}, g) for _ in range(s.draw(4))]
    if t == 'generator':
        items = [value(s, sp['items_schema'], g) for _ in range(s.draw(4))]
        return X('gen', items) if s.draw(4) else items
    if t == 'tuple':
        schemas = sp['items_schema']
        var = sp.get('variadic_item_index')
        if var is not None:
            schemas = schemas[:var] + [schemas[var]] * s.draw(3) + schemas[var + 1 :]
        items = [value(s, x, g) for x in schemas]
        if s.draw(12) == 11:
            items = items[:-1] if s.draw(2) else items + [1]
        return tuple(items)
    if t in ('set', 'frozenset'):
        items = [v for v in (value(s, sp['items_schema'], g) for _ in range(s.draw(4))) if hashable(v)]
        return set(items) if t == 'set' else frozenset(items)
    if t == 'dict':
        keys = sp.get('keys_schema')
        out = {}
        for _ in range(s.draw(5)):
            k = pick(s, ['a', 'b', 'c', 'd', 'e']) if keys is None else pick(s, ['a', 'b']) if keys['type'] == 'any' else leaf_value(s, keys)
            if hashable(k):
                out[k] = value(s, sp.get('values_schema') or {'type': 'any'}, g)
        return out
    if t == 'nullable':
        return None if s.draw(3) == 2 else value(s, sp['schema'], g)
    if t == 'default':
        return sp['default'] if s.draw(3) == 2 else value(s, sp['schema'], g)
    if t == 'union':
        return value(s, pick(s, sp['choices']), g)
    if t == 'tagged-union':
        tag = pick(s, list(sp['choices']))
        v = value(s, sp['choices'][tag], g)
        if s.draw(8) == 7:
            tag = pick(s, ['k0', 'k1', 'zz'])
        if isinstance(v, dict) and 'kind' in v:
            v = {**v, 'kind': tag}
        elif isinstance(v, X) and v.kind == 'inst' and 'kind' in v.args[1]:
            v = X('inst', v.args[0], {**v.args[1], 'kind': tag}, *v.args[2:])
        return v
    if t == 'model':
        return model_value(s, sp, g)
    if t == 'dataclass':
        cls = sp['cls'].args[0]
        fs = {f['name']: f for f in sp['schema']['fields']}
        if s.draw(12) == 11:
            cls = pick(s, ['D0', 'D1', 'D2'])
        return X('dci', cls, {n: value(s, fs[n]['schema'] if n in fs else {'type': 'any'}, g) for n in lib.DC_FIELDS[cls]})
    if t == 'typed-dict':
        out = {}
        for n, f in sp['fields'].items():
            if f.get('required', sp.get('total', True)) or s.draw(2):
                if s.draw(20) < 19:
                    out[n] = value(s, f['schema'], g)
        if (sp.get('extra_behavior') == 'allow' and s.draw(2)) or s.draw(15) == 14:
            for n in ('x', 'y'):
                if s.draw(2):
                    out[n] = value(s, sp.get('extras_schema') or {'type': 'any'}, g)
        return out
    if t in ('function-before', 'function-after', 'function-wrap'):
        return value(s, sp['schema'], g)
    return leaf_value(s, sp)


def model_value(s, sp: dict, g: G) -> Any:
    cls = sp['cls'].args[0]
    if sp.get('root_model'):
        return X('inst', cls, {'root': value(s, sp['schema'], g)}, ['root'])
    fs = sp['schema']['fields']
    if s.draw(12) == 11:
        cls = pick(s, ['M0', 'M1', 'M2'])
    vals = {n: value(s, f['schema'], g) for n, f in fs.items()}
    fields_set = [n for n in vals if s.draw(3) < 2]
    extra = None
    if sp['schema'].get('extra_behavior') == 'allow':
        extra = {n: value(s, sp['schema'].get('extras_schema') or {'type': 'any'}, g) for n in ('x', 'y') if s.draw(3) == 2}
        fields_set += [n for n in extra if s.draw(4)]
    return X('inst', cls, vals, fields_set, extra)


# ----------------------------------------------------------------------------------------------------------- filters
def filter_for(s, v: Any, depth: int = 3) -> Any:
    """An include or exclude that names parts of `v`: a set of keys, or a dict that goes on for the part."""
    if isinstance(v, X):
        if v.kind == 'inst':
            sub = dict(v.args[1])
            if len(v.args) > 3 and v.args[3]:
                sub.update(v.args[3])
            if set(sub) == {'root'}:
                return filter_for(s, sub['root'], depth)
            for p in ('p_len', 'p_none', 'p_obj'):
                sub[p] = {'a': 1, 'b': None, 'c': [1, 2]}
        elif v.kind == 'dci':
            sub = {**v.args[1], 'p_obj': {'a': 1, 'b': None, 'c': [1, 2]}}
        elif v.kind == 'gen':
            sub = {i: x for i, x in enumerate(v.args[0])}
        elif v.kind in ('list', 'tuple'):
            sub = indexed(s, list(v.args[0]))
        else:
            sub = {'a': 1, 0: 2}
    elif isinstance(v, dict):
        sub = dict(v)
    elif isinstance(v, (list, tuple)):
        sub = indexed(s, list(v))
    elif isinstance(v, (set, frozenset)):
        return filter_for(s, next(iter(v)), depth) if v else {'a'}
    else:
        sub = {'a': 1, 0: 2}
    keys = [k for k in sub if k is not None and not isinstance(k, (X, tuple, bytes, float, bool)) and s.draw(2)]
    if s.draw(8) == 7:
        keys.append('__all__')
    if s.draw(8) == 7:
        keys.append(pick(s, ['zz', 'a', 7, 0]))
    if s.draw(2) or depth == 0:
        return set(keys)
    first = next(iter(sub.values()), None)
    out = {}
    for k in keys:
        j = s.draw(5)
        out[k] = ... if j < 2 else True if j == 2 else filter_for(s, sub[k] if k in sub else first, depth - 1)
    return out


def indexed(s, items: list) -> dict:
    n = len(items)
    return {(i - n if s.draw(3) == 2 else i): x for i, x in enumerate(items)}


def filter_kw(s, v: Any) -> dict:
    k = s.draw(4)
    out = {}
    if k in (1, 3):
        out['include'] = filter_for(s, v)
    if k in (2, 3):
        out['exclude'] = filter_for(s, v)
    return out


def exclusion_kw(s) -> dict:
    out: dict = {}
    for k in ('exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip'):
        if s.draw(3) == 2:
            out[k] = True
    k = s.draw(4)
    if k >= 2:
        out['by_alias'] = k == 3
    return out
