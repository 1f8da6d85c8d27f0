from __future__ import annotations

import json

import lib
import pydantic_core as pc
import serspecs as ss
from core import Test, X
from gen import Strategy
from lib import Skip, ensure, mk, same
from models.compose import build
from pydantic_core import SchemaSerializer, SchemaValidator
from specs import chance, hashable, pick

RULE = 'the value has a container or is not None, a bool or a small int'
ASSUMPTIONS = ('types whose JSON form determines the value: finite decimals, whole-minute UTC offsets, UTF-8 bytes (or base64 and hex for any bytes), union '
               'members with distinct JSON forms, validation alias equal to serialization alias')

SCALARS = {
    'int': lib.ints(), 'str': lib.texts(), 'bool': lib.st.booleans(), 'float': lib.floats(), 'date': lib.dates(),
    'time': lib.times(), 'datetime': lib.datetimes(), 'timedelta': lib.timedeltas(), 'uuid': lib.uuids().map(lambda i: X('uuid', i)),
    'decimal': lib.decimals(False), 'bytes': lib.st.binary(max_size=6), 'textbytes': lib.texts().map(lambda t: t.encode()) | lib.st.sampled_from([b'=', b'a=', b'+/', b'-_=']), 'none': lib.st.none(),
    'complex': lib.st.builds(lambda a, b: X('cplx', a or 0.0, b), lib.floats(), lib.floats()),
    'url': lib.st.sampled_from([X('url', u) for u in ('http://a.b/', 'https://x:y@é.com:81/p?q=1#f', 'file:///a/b', 'x://y')]),
    'multi-host-url': lib.st.sampled_from([X('murl', u) for u in ('redis://a:1,b:2/0', 'postgres://u:p@h1,h2:5/x')]),
}
KEYS = ['str', 'int', 'date', 'uuid', 'datetime', 'time', 'bool', 'timedelta', 'decimal', 'float', 'enum', 'bytes', 'url', 'literal']
DISTINCT = [['int', 'str', 'none'], ['bool', 'str'], ['int', 'list'], ['dict', 'list'], ['none', 'date', 'list'], ['str', 'model']]


class C:
    def __init__(self, cfg):
        self.cfg = cfg


def scalar(s, c, keys=False):
    t = pick(s, KEYS if keys else list(SCALARS) + ['enum', 'literal'])
    if t == 'bytes' and c.cfg.get('ser_json_bytes', 'utf8') == 'utf8':
        t = 'textbytes'
    if t == 'enum':
        cls = 'StrE' if keys else pick(s, ['IntE', 'StrE'])
        return {'type': 'enum', 'cls': X('enumcls', cls), 'members': [X('enum', cls, m.name) for m in lib.ENUMS[cls]]}
    if t == 'literal':
        return {'type': 'literal', 'expected': ['a', 'b=', ''] if keys else pick(s, [['a', 'b'], [1, 2], [None, 'a'], [True, 'x']])}
    if t == 'textbytes':
        return {'type': 'bytes', 'metadata': 'text'}
    return {'type': t}


def null_root(sp):
    """Whether a root model instance in it is written as null."""
    if sp.get('root_model'):
        return null_root(sp['schema']) or sp['schema']['type'] in ('none', 'nullable') or None in sp['schema'].get('expected', ())
    if sp['type'] in ('nullable', 'default'):
        return null_root(sp['schema'])
    return any(null_root(x) or x['type'] == 'none' for x in sp.get('choices', ()))


def nullable(sp):
    return {'type': 'nullable', 'schema': {'type': 'list', 'items_schema': sp} if null_root(sp) else sp}


def spec(s, c, depth):
    if depth == 0 or chance(s, 1, 5):
        return scalar(s, c)
    k = s.draw(11)
    if k < 2:
        return {'type': 'list', 'items_schema': spec(s, c, depth - 1)}
    if k == 2:
        n = 1 + s.draw(3)
        out = {'type': 'tuple', 'items_schema': [spec(s, c, depth - 1) for _ in range(n)]}
        if s.draw(2):
            out['variadic_item_index'] = s.draw(n)
        return out
    if k == 3:
        return {'type': pick(s, ['set', 'frozenset']), 'items_schema': scalar(s, c)}
    if k == 4:
        return {'type': 'dict', 'keys_schema': scalar(s, c, True), 'values_schema': spec(s, c, depth - 1)}
    if k == 5:
        return nullable(spec(s, c, depth - 1))
    if k == 6:
        return {'type': 'typed-dict', 'fields': fields(s, c, depth, 'typed-dict', ['a', 'b']), 'config': c.cfg}
    if k in (7, 8):
        if s.draw(5) == 4:
            return {'type': 'model', 'cls': X('class', 'M3'), 'root_model': True, 'config': c.cfg, 'schema': spec(s, c, depth - 1)}
        fs = {'type': 'model-fields', 'fields': fields(s, c, depth, 'model', ['a', 'b', 'c'][: 1 + s.draw(3)])}
        out = {'type': 'model', 'cls': X('class', 'M0'), 'schema': fs, 'config': c.cfg}
        if s.draw(4) == 3:
            fs['extra_behavior'] = out['extra_behavior'] = 'allow'
            fs['extras_schema'] = spec(s, c, 1)
        return out
    if k == 9:
        cls = pick(s, ['D0', 'D2'])
        names = lib.DC_FIELDS[cls]
        return {'type': 'dataclass', 'cls': X('class', cls), 'fields': names, 'config': c.cfg, **({'slots': True} if cls == 'D2' else {}),
                'schema': {'type': 'dataclass-args', 'dataclass_name': cls, 'fields': list(fields(s, c, depth, 'dataclass', names).values())}}
    members = pick(s, DISTINCT)
    return {'type': 'union', 'choices': [member(s, c, m, depth) for m in members]}


def member(s, c, m, depth):
    if m == 'list':
        return {'type': 'list', 'items_schema': spec(s, c, depth - 1)}
    if m == 'dict':
        return {'type': 'dict', 'keys_schema': {'type': 'str'}, 'values_schema': spec(s, c, depth - 1)}
    if m == 'model':
        return {'type': 'model', 'cls': X('class', 'M2'), 'config': c.cfg, 'schema': {'type': 'model-fields', 'fields': fields(s, c, depth, 'model', ['a'])}}
    return {'type': m}


def fields(s, c, depth, kind, names):
    out = {}
    default_seen = False
    for n in names:
        sub = spec(s, c, depth - 1)
        f: dict = {'type': {'model': 'model-field', 'dataclass': 'dataclass-field', 'typed-dict': 'typed-dict-field'}[kind], 'schema': sub}
        if s.draw(3) == 2:
            sub = nullable(sub) if s.draw(2) else sub
            d = value(s, sub)
            f['schema'] = {'type': 'default', 'schema': sub, 'default': d if ss.fresh_ok(d) and "X('dci'" not in repr(d) else None}
            if not ss.fresh_ok(d) or "X('dci'" in repr(d):
                f['schema'] = {'type': 'default', 'schema': nullable(sub), 'default': None}
        if kind == 'dataclass':
            f['name'] = n
        if s.draw(3) == 2:
            f['serialization_alias'] = f['validation_alias'] = n.upper()
        if kind == 'typed-dict' and s.draw(4) == 3:
            f['required'] = False
        out[n] = f
    return out


def value(s, sp):
    """A value validation would produce."""
    t = sp['type']
    if t == 'list':
        return [value(s, sp['items_schema']) for _ in range(s.draw(4))]
    if t == 'tuple':
        schemas = sp['items_schema']
        var = sp.get('variadic_item_index')
        if var is not None:
            schemas = schemas[:var] + [schemas[var]] * s.draw(3) + schemas[var + 1 :]
        return tuple(value(s, x) for x in schemas)
    if t in ('set', 'frozenset'):
        items = [v for v in (value(s, sp['items_schema']) for _ in range(s.draw(3))) if hashable(v)]
        return set(items) if t == 'set' else frozenset(items)
    if t == 'dict':
        out = {}
        for _ in range(s.draw(4)):
            k = value(s, sp['keys_schema'])
            if hashable(k):
                out[k] = value(s, sp['values_schema'])
        return out
    if t == 'nullable':
        return None if s.draw(3) == 2 else value(s, sp['schema'])
    if t == 'default':
        return sp['default'] if s.draw(3) == 2 else value(s, sp['schema'])
    if t == 'union':
        return value(s, pick(s, sp['choices']))
    if t == 'typed-dict':
        return {n: value(s, f['schema']) for n, f in sp['fields'].items() if f.get('required', True) and f['schema']['type'] != 'default' or s.draw(2)
                or f['schema']['type'] == 'default'}
    if t == 'model':
        if sp.get('root_model'):
            return X('inst', sp['cls'].args[0], {'root': value(s, sp['schema'])}, ['root'])
        fs = sp['schema']['fields']
        vals, given = {}, []
        for n, f in fs.items():
            if f['schema']['type'] == 'default' and s.draw(2):
                vals[n] = f['schema']['default']
            else:
                vals[n] = value(s, f['schema'])
                given.append(n)
        extra = None
        if sp['schema'].get('extra_behavior') == 'allow':
            extra = {n: value(s, sp['schema']['extras_schema']) for n in ('x', 'y') if s.draw(2)}
            given += list(extra)
        return X('inst', sp['cls'].args[0], vals, given, extra)
    if t == 'dataclass':
        return X('dci', sp['cls'].args[0], {f['name']: value(s, f['schema']) for f in sp['schema']['fields']})
    if t == 'enum':
        return pick(s, sp['members'])
    if t == 'literal':
        return pick(s, sp['expected'])
    if t == 'bytes':
        return SCALARS['textbytes' if sp.get('metadata') else 'bytes'].do(s)
    return SCALARS[t].do(s)


def config(s):
    how = pick(s, ['utf8', 'base64', 'hex'])
    out = {'ser_json_bytes': how, 'val_json_bytes': how, 'ser_json_inf_nan': 'constants'}
    return out if s.draw(3) == 2 else {'ser_json_inf_nan': 'constants'}


def case(s):
    c = C(config(s))
    sp = spec(s, c, s.draw(4))
    return sp, value(s, sp), c.cfg, s.draw(8)


def excluded(v):
    """Offsets that have seconds cannot be written."""
    r = repr(v)
    return any(f', {o})' in r for o in (45, 86399, -86399, 3601))


def check(case, rec):
    sp, spec_v, cfg, how = case
    if excluded(spec_v):
        raise Skip
    schema = build(sp)
    config = pc.core_schema.CoreConfig(**cfg)
    v = SchemaValidator(schema, config)
    s = SchemaSerializer(schema, config)
    obj = mk(spec_v)
    text = s.to_json(obj, by_alias=True, round_trip=True, warnings='error')
    keys = dup_keys(text)
    if keys:
        raise Skip  # two keys with one text
    rec.nontrivial(not (obj is None or isinstance(obj, bool) or type(obj) is int and abs(obj) < 100))
    rec.label(sp['type'])
    back = v.validate_json(text)
    ensure(like(back, obj), 'validate_json(to_json(x)) is not x', case, back, text)
    back = v.validate_python(s.to_python(obj, mode='json', by_alias=True, round_trip=True, warnings='error'))
    if not cfg.get('ser_json_bytes'):
        ensure(like(back, obj), 'validate_python(to_python(x, mode=json)) is not x', case, back)
    dumped = s.to_python(obj, by_alias=True, round_trip=True, warnings='error')
    back = v.validate_python(dumped)
    ensure(like(back, obj), 'validate_python(to_python(x)) is not x', case, back, dumped)
    if not has_fixed_width(sp):
        back = v.validate_python(dumped, strict=True) if "'dataclass'" not in repr(sp) and "'model'" not in repr(sp) else None
        ensure(back is None or like(back, obj), 'strict validate_python(to_python(x)) is not x', case, back, dumped)
    # leaving out what the validator puts back
    text = s.to_json(obj, by_alias=True, round_trip=True, exclude_unset=True, warnings='error')
    if "'dataclass'" not in repr(sp):
        back = v.validate_json(text)
        ensure(same_set(back, obj), 'validate_json(to_json(x, exclude_unset)) is not x', case, back, text)
    text = s.to_json(obj, by_alias=True, round_trip=True, exclude_defaults=True, warnings='error')
    back = v.validate_json(text)
    ensure(alike(plain(back, False), plain(obj, False)), 'validate_json(to_json(x, exclude_defaults)) is not x', case, back, text)
    # the text itself is stable
    again = s.to_json(v.validate_json(text), by_alias=True, round_trip=True, exclude_defaults=True, warnings='error')
    if "'set'" not in repr(sp) and "'frozenset'" not in repr(sp):
        ensure(again == text, 'to_json is not stable', case, text, again)


def has_fixed_width(sp):
    return "'enum'" in repr(sp) and False


def dup_keys(text):
    dup = []

    def hook(pairs):
        if len({k for k, _ in pairs}) != len(pairs):
            dup.append(1)
        return None

    json.loads(text, object_pairs_hook=hook)
    return dup


def plain(x, with_set):
    """Instances as comparable data."""
    if isinstance(x, lib.ModelBase):
        return (type(x).__name__, {k: plain(v, with_set) for k, v in sorted(x.__dict__.items())},
                plain(getattr(x, '__pydantic_extra__', None), with_set), sorted(x.__pydantic_fields_set__) if with_set else None)
    if isinstance(x, lib.DcBase):
        return type(x).__name__, {f: plain(getattr(x, f), with_set) for f in lib.DC_FIELDS[type(x).__name__]}
    if isinstance(x, dict):
        return {k: plain(v, with_set) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v, with_set) for v in x]
    if isinstance(x, tuple):
        return tuple(plain(v, with_set) for v in x)
    return x


def like(a, b):
    return same(plain(a, False), plain(b, False))


def alike(a, b):
    """Equal, where a default may stand for a value equal to it."""
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and (same(a, b) or all(k in b and alike(v, b[k]) for k, v in a.items()))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(map(alike, a, b))
    return a == b or same(a, b)


def same_set(a, b):
    return same(plain(a, True), plain(b, True))


TESTS = [Test('round_trip', lambda: Strategy(case), check, 160000, 1000000)]
