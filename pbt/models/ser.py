"""Reference model of serialization: walks a schema and a value, following the documented rules of composition, filters,
exclusions, aliases, unions and functions; scalar types are asked of a serializer built for that type alone."""

from __future__ import annotations

import collections.abc
import copy
import dataclasses
import enum
import types
from typing import Any

import pydantic_core as pc
from lib import CLASSES, DC_FIELDS, SER_FUNCTIONS, Attrs, HasFloat, ModelBase, MyMapping, MySequence, Opaque, Skip, mk
from models.compose import build
from pydantic_core import SchemaSerializer


class SerBad(Exception):
    """Serialization fails."""


class Unexpected(SerBad):
    """A value of another type than the schema's (within a union: try the next member)."""


class O:
    """What a serialization call carries along."""

    def __init__(self, mode: str = 'python', config: dict | None = None, **kw: Any):
        self.mode = mode
        self.top = config or {}  # decides how values of unknown type are written
        self.cfg = config or {}
        self.by_alias = kw.get('by_alias')
        self.exclude_unset = kw.get('exclude_unset', False)
        self.exclude_defaults = kw.get('exclude_defaults', False)
        self.exclude_none = kw.get('exclude_none', False)
        self.round_trip = kw.get('round_trip', False)
        self.context = kw.get('context')
        self.fallback = kw.get('fallback')
        self.serialize_unknown = kw.get('serialize_unknown', False)
        self.check = 'none'
        self.model: Any = None
        self.field_name: str | None = None
        self.defs: dict = {}
        self.warned: list = []  # shared by the copies: mismatches that were met

    def but(self, **kw: Any) -> O:
        o = copy.copy(self)
        o.__dict__.update(kw)
        return o

    def use_alias(self) -> bool:
        if self.by_alias is not None:
            return self.by_alias
        return bool(self.cfg.get('serialize_by_alias', False))


# --------------------------------------------------------------------------------------------------------- filters
ALL = '__all__'


def is_all(v: Any) -> bool:
    return v is ... or v is True


def as_dict(v: Any) -> dict:
    return dict(v) if isinstance(v, dict) else {k: ... for k in v}


def merge(item: Any, every: Any) -> Any:
    """What applies to an item that is named and that '__all__' names too: the more specific one wins, parts add up."""
    if is_all(item) or is_all(every):
        return item
    out = as_dict(item)
    for k, v in as_dict(every).items():
        out[k] = merge(out[k], v) if k in out else v
    return out


def lookup(spec: Any, key: Any) -> Any:
    """None: not named; else what is said about `key` (`...`: all of it)."""
    d = as_dict(spec)
    if key in d and ALL in d:
        return merge(d[key], d[ALL])
    if key in d:
        return d[key]
    return d.get(ALL)


def unsized(spec: Any) -> Any:
    if spec is not None and any(isinstance(k, int) and k < 0 for k in spec):
        raise Skip  # a ValueError
    return spec


def norm(spec: Any, length: int | None) -> Any:
    """Negative indices count from the end."""
    if spec is None or length is None:
        return spec

    def f(k):
        return k + length if isinstance(k, int) and not isinstance(k, bool) and k < 0 else k

    if isinstance(spec, dict):
        return {f(k): v for k, v in spec.items()}
    return {f(k) for k in spec}


def decide(key: Any, inc: Any, exc: Any, sinc: Any = None, sexc: Any = None) -> tuple | None:
    """None: left out; else the include and exclude for the parts of the item."""
    next_exc = None
    if exc is not None:
        e = lookup(exc, key)
        if e is not None:
            if is_all(e):
                return None
            next_exc = e
    if inc is not None:
        i = lookup(inc, key)
        if i is not None:
            return (None if is_all(i) else i), next_exc
        if sinc is None or key not in sinc:
            return None
    if sinc is not None and key not in sinc:
        return None
    if sexc is not None and key in sexc:
        return None
    return None, next_exc


def schema_filter(spec: dict) -> tuple:
    ser = spec.get('serialization') or {}
    return ser.get('include'), ser.get('exclude')


# ---------------------------------------------------------------------------------------------------------- scalars
_CACHE: dict[str, SchemaSerializer] = {}
SENTINEL = ['<not matched>']


def cached(schema: dict, cfg: dict) -> SchemaSerializer:
    key = repr((schema, cfg))
    s = _CACHE.get(key)
    if s is None:
        if len(_CACHE) > 3000:
            _CACHE.clear()
        s = _CACHE[key] = SchemaSerializer(build(schema), pc.core_schema.CoreConfig(**cfg) if cfg else None)
    return s


INFERRED = ('any', 'literal', 'enum', 'is-instance', 'callable')  # these leave it to inference


def leaf(spec: dict, value: Any, o: O, inc: Any = None, exc: Any = None) -> Any:
    if spec['type'] in INFERRED:
        o = o.but(cfg=o.top)
        if isinstance(value, enum.Enum) and isinstance(value.value, tuple) and not (inc is None and exc is None):
            raise Skip
    if spec['type'] == 'float' and not isinstance(value, (int, float)) and hasattr(value, '__float__'):
        raise Skip  # to_json coerces, to_python falls back (known finding)
    kw = {'mode': o.mode, 'warnings': False}
    try:
        if o.check == 'strict' or (o.check == 'lax' and spec['type'] == 'literal'):
            s = cached({'type': 'union', 'choices': [spec, {'type': 'any', 'serialization': {'type': 'function-plain', 'function': SENTINEL_FN}}]}, o.cfg)
            r = s.to_python(value, **kw)
            if r == SENTINEL:
                raise Unexpected
            return r
        if spec['type'] == 'any':
            return cached(spec, o.top).to_python(value, **kw)
        try:
            return cached(spec, o.cfg).to_python(value, mode=o.mode, warnings='error')
        except pc.PydanticSerializationError:
            if o.check == 'lax':
                raise Unexpected from None
            o.warned.append(value)
            return infer(value, inc, exc, o)
    except pc.PydanticSerializationError as e:
        raise SerBad(str(e)) from None


def sentinel(v):
    return SENTINEL


SER_FUNCTIONS['sentinel'] = sentinel
from core import X  # noqa: E402

SENTINEL_FN = X('sf', 'sentinel')


def json_key(spec: dict, key: Any, o: O) -> str:
    t = spec['type']
    if t in INFERRED:
        o = o.but(cfg=o.top)
    if t in ('nullable', 'default'):
        return json_key({'type': 'any'} if t == 'nullable' and key is None else spec['schema'], key, o)
    if t == 'union' or 'serialization' in spec:
        raise Skip
    if isinstance(key, (ModelBase, dict, list)) or dataclasses.is_dataclass(key):
        raise SerBad
    try:
        d = cached({'type': 'dict', 'keys_schema': spec}, o.cfg).to_python({key: None}, mode='json', warnings='error')
    except pc.PydanticSerializationError:
        if o.check != 'none':
            raise Unexpected from None
        o.warned.append(key)
        d = None
    if d is not None:
        return next(iter(d))
    try:
        d = cached({'type': 'any'}, o.top).to_python({key: None}, mode='json', warnings=False)
    except pc.PydanticSerializationError as e:
        raise SerBad(str(e)) from None
    return next(iter(d))


# --------------------------------------------------------------------------------------------------------- inference
UNKNOWN = (ModelBase, Opaque, HasFloat, Attrs, MyMapping, MySequence, types.BuiltinFunctionType)


def infer(value: Any, inc: Any, exc: Any, o: O) -> Any:
    js = o.mode == 'json'
    if isinstance(value, (list, tuple)) and not isinstance(value, enum.Enum):
        n = len(value)
        inc, exc = norm(inc, n), norm(exc, n)
        out = [infer(v, *d, o) for i, v in enumerate(value) if (d := decide(i, inc, exc)) is not None]
        return out if js or isinstance(value, list) else tuple(out)
    if isinstance(value, (set, frozenset)):
        out = [infer(v, None, None, o) for v in value]
        return out if js else type(value)(out) if type(value) in (set, frozenset) else (set if isinstance(value, set) else frozenset)(out)
    if isinstance(value, dict):
        return infer_pairs(value.items(), inc, exc, o)
    if isinstance(value, UNKNOWN) or value is Ellipsis:
        if o.fallback:
            return infer(o.fallback(value), inc, exc, o)
        if js:
            if o.serialize_unknown:
                return str(value)
            raise SerBad('unknown type')
        return value
    if dataclasses.is_dataclass(value) and not isinstance(value, type):
        return infer_pairs([(f.name, getattr(value, f.name)) for f in dataclasses.fields(value)], inc, exc, o)
    if isinstance(value, enum.Enum) and js:
        return infer(value.value, inc, exc, o)
    if isinstance(value, types.GeneratorType):
        unsized(inc), unsized(exc)
        if js:
            return [infer(v, *d, o) for i, v in enumerate(value) if (d := decide(i, inc, exc)) is not None]
        raise Skip
    o2 = o.but(cfg=o.top, check='none')
    return leaf({'type': 'any'}, value, o2)


def infer_pairs(pairs: Any, inc: Any, exc: Any, o: O) -> dict:
    out = {}
    for k, v in pairs:
        d = decide(k, inc, exc)
        if d is not None:
            k2 = json_key({'type': 'any'}, k, o.but(cfg=o.top)) if o.mode == 'json' else k
            out[k2] = infer(v, *d, o)
    return out


# ------------------------------------------------------------------------------------------------------------- nodes
NODES: dict[str, Any] = {}


def node(*names: str):
    def deco(f):
        for n in names:
            NODES[n] = f
        return f

    return deco


def mismatch(value: Any, inc: Any, exc: Any, o: O) -> Any:
    if value is not None:
        if o.check != 'none':
            raise Unexpected
        o.warned.append(value)
    return infer(value, inc, exc, o)


def ser(spec: dict, value: Any, inc: Any, exc: Any, o: O) -> Any:
    sub = spec.get('serialization')
    if sub is not None and not sub['type'].startswith('include-exclude'):
        return SERIALIZATIONS[sub['type']](spec, sub, value, inc, exc, o)
    f = NODES.get(spec['type'])
    if f is None:
        if isinstance(value, (list, tuple, dict, set, frozenset, ModelBase, types.GeneratorType)) or dataclasses.is_dataclass(value):
            if spec['type'] == 'literal' and o.check == 'none':
                return infer(value, inc, exc, o)  # what is in a literal is looked at in unions only
            return mismatch(value, inc, exc, o)
        return leaf(spec, value, o, inc, exc)
    return f(spec, value, inc, exc, o)


@node('any', 'is-instance', 'is-subclass', 'callable')
def any_(spec, value, inc, exc, o):
    return infer(value, inc, exc, o)


@node('list')
def list_(spec, value, inc, exc, o):
    if not isinstance(value, list):
        return mismatch(value, inc, exc, o)
    items = spec.get('items_schema') or {'type': 'any'}
    inc, exc = norm(inc, len(value)), norm(exc, len(value))
    sf = schema_filter(spec)
    return [ser(items, v, *d, o) for i, v in enumerate(value) if (d := decide(i, inc, exc, *sf)) is not None]


@node('tuple')
def tuple_(spec, value, inc, exc, o):
    if not isinstance(value, tuple):
        return mismatch(value, inc, exc, o)
    schemas = spec['items_schema']
    var = spec.get('variadic_item_index')
    n = len(value)
    if var is not None:
        plan = schemas[:var] + [schemas[var]] * max(0, n + 1 - len(schemas)) + schemas[var + 1 :]
    else:
        if o.check == 'strict' and n != len(schemas):
            raise Unexpected
        plan = schemas + [{'type': 'any'}] * (n - len(schemas))
    inc, exc = norm(inc, n), norm(exc, n)
    sf = schema_filter(spec)
    out = []
    for i, (sub, v) in enumerate(zip(plan, value)):
        if var is None and i == len(schemas):
            o.warned.append(value)  # more items than the schema has
        if (d := decide(i, inc, exc, *sf)) is not None:
            out.append(ser(sub, v, *d, o))
    return out if o.mode == 'json' else tuple(out)


@node('set', 'frozenset')
def set_(spec, value, inc, exc, o):
    cls = set if spec['type'] == 'set' else frozenset
    if not isinstance(value, cls):
        return mismatch(value, inc, exc, o)
    items = spec.get('items_schema') or {'type': 'any'}
    out = [ser(items, v, inc, exc, o) for v in value]
    return out if o.mode == 'json' else cls(out)


@node('dict')
def dict_(spec, value, inc, exc, o):
    if not isinstance(value, dict):
        return mismatch(value, inc, exc, o)
    keys = spec.get('keys_schema') or {'type': 'any'}
    vals = spec.get('values_schema') or {'type': 'any'}
    sf = schema_filter(spec)
    out = {}
    for k, v in value.items():
        d = decide(k, inc, exc, *sf)
        if d is not None:
            k2 = json_key(keys, k, o) if o.mode == 'json' else ser(keys, k, None, None, o)
            out[k2] = ser(vals, v, *d, o)
    return out


@node('generator')
def generator(spec, value, inc, exc, o):
    if not isinstance(value, collections.abc.Iterator):
        return mismatch(value, inc, exc, o)
    unsized(inc), unsized(exc)
    items = spec.get('items_schema') or {'type': 'any'}
    sf = schema_filter(spec)
    return [ser(items, v, *d, o) for i, v in enumerate(value) if (d := decide(i, inc, exc, *sf)) is not None]


@node('nullable')
def nullable(spec, value, inc, exc, o):
    return None if value is None else ser(spec['schema'], value, inc, exc, o)


@node('default', 'custom-error', 'function-before', 'function-after', 'function-wrap')
def wrapper(spec, value, inc, exc, o):
    return ser(spec['schema'], value, inc, exc, o)


@node('json')
def json_(spec, value, inc, exc, o):
    inner = spec.get('schema') or {'type': 'any'}
    if o.round_trip:
        if inner['type'] != 'any' and (o.cfg != o.top or o.check != 'none'):
            raise Skip
        try:
            return cached(inner, o.top).to_json(value, include=inc, exclude=exc, round_trip=True, warnings=False).decode()
        except pc.PydanticSerializationError as e:
            raise SerBad(str(e)) from None
    return ser(inner, value, inc, exc, o)


@node('definition-ref')
def ref(spec, value, inc, exc, o):
    return ser(o.defs[spec['schema_ref']], value, inc, exc, o)


@node('definitions')
def definitions(spec, value, inc, exc, o):
    return ser(spec['schema'], value, inc, exc, o.but(defs={**o.defs, **{d['ref']: d for d in spec['definitions']}}))


# ------------------------------------------------------------------------------------------------------------ fields
def default_value(spec: dict) -> tuple[bool, Any]:
    if spec['type'] != 'default' or 'serialization' in spec:
        return False, None
    if 'default' in spec:
        return True, mk(spec['default'])
    if 'default_factory' in spec and not spec.get('default_factory_takes_data'):
        return True, mk(spec['default_factory'])()
    return False, None


def fields(spec: dict, items: list, extra: dict | None, inc: Any, exc: Any, o: O, model: Any) -> dict:
    allow_inline = spec['type'] == 'typed-dict' and spec.get('extra_behavior', o.cfg.get('extra_fields_behavior')) == 'allow'
    fs = spec['fields']
    if isinstance(fs, list):
        fs = {f['name']: f for f in fs}
    out: dict = {}
    used = 0
    fo = o.but(model=model)
    total = spec.get('total', o.cfg.get('typed_dict_total', True))

    def required(f):
        return f.get('required', total) if spec['type'] == 'typed-dict' else True

    for k, v in items:
        if not isinstance(k, str):
            raise Skip  # a TypeError
        f = fs.get(k)
        if o.exclude_none and v is None:
            used += bool(f and required(f))
            continue
        d = decide(k, inc, exc)
        if d is None:
            continue
        ko = fo.but(field_name=k)
        if f is not None:
            used += bool(required(f))
            if f.get('serialization_exclude'):
                continue
            if o.exclude_defaults:
                has, dv = default_value(f['schema'])
                if has and v == dv:
                    continue
            out[f.get('serialization_alias', k) if o.use_alias() else k] = ser(f['schema'], v, *d, ko)
        elif allow_inline:
            out[k] = ser(spec.get('extras_schema') or {'type': 'any'}, v, *d, ko)
        elif o.check == 'strict':
            raise Unexpected
    needed = sum(bool(required(f)) for f in fs.values())
    if o.check != 'none' and not (o.exclude_defaults or o.exclude_unset or o.exclude_none or inc is not None or exc is not None) and needed > used:
        raise Unexpected
    for k, v in (extra or {}).items():
        if o.exclude_none and v is None:
            continue
        d = decide(k, inc, exc)
        if d is not None:
            out[k] = ser(spec.get('extras_schema') or {'type': 'any'}, v, *d, o.but(model=model))
    if not o.round_trip:
        for c in spec.get('computed_fields', ()):
            name = c['property_name']
            d = decide(name, inc, exc)
            if d is None:
                continue
            v = getattr(model, name)
            if o.exclude_none and v is None:
                continue
            out[c.get('alias', name) if o.use_alias() else name] = ser(c['return_schema'], v, *d, fo.but(field_name=name))
    return out


@node('typed-dict')
def typed_dict(spec, value, inc, exc, o):
    if not isinstance(value, dict):
        return mismatch(value, inc, exc, o)
    o = o.but(cfg={**o.cfg, **spec['config']} if 'config' in spec else o.cfg)
    return fields(spec, list(value.items()), None, inc, exc, o, o.model if o.model is not None else value)


@node('model')
def model(spec, value, inc, exc, o):
    cls = CLASSES[spec['cls'].args[0]]
    mo = o.but(cfg=spec.get('config') or {}, model=value)
    if spec.get('root_model'):
        if not hasattr(value, 'root'):
            if o.check == 'none':
                raise Skip  # an AttributeError
            raise Unexpected
        return ser(spec['schema'], value.root, inc, exc, mo.but(field_name='root'))
    if o.check == 'strict':
        ok = type(value) is cls
    elif o.check == 'lax':
        ok = isinstance(value, cls)
    else:
        ok = hasattr(value, '__dict__')
    if not ok:
        return mismatch(value, inc, exc, mo.but(cfg=o.cfg))
    if not isinstance(value, ModelBase):
        raise Skip  # duck typed: unspecified
    inner = spec['schema']
    items = list(value.__dict__.items())
    if o.exclude_unset:
        items = [(k, v) for k, v in items if k in value.__pydantic_fields_set__]
    allow = inner.get('extra_behavior', (spec.get('config') or {}).get('extra_fields_behavior')) == 'allow'
    if allow and value.__pydantic_extra__ is None:
        raise Skip
    return fields(inner, items, value.__pydantic_extra__ if allow else None, inc, exc, mo, value)


@node('dataclass')
def dataclass(spec, value, inc, exc, o):
    cls = CLASSES[spec['cls'].args[0]]
    mo = o.but(cfg=spec.get('config') or {}, model=value)
    if o.check == 'strict':
        ok = type(value) is cls
    elif o.check == 'lax':
        ok = isinstance(value, cls)
    else:
        ok = dataclasses.is_dataclass(value) and not isinstance(value, type)
    if not ok:
        return mismatch(value, inc, exc, mo.but(cfg=o.cfg))
    names = spec.get('fields') or DC_FIELDS[cls.__name__]
    if not all(hasattr(value, n) for n in names):
        raise Skip
    return fields(spec['schema'], [(n, getattr(value, n)) for n in names], None, inc, exc, mo, value)


# ------------------------------------------------------------------------------------------------------------ unions
def lax_retry(spec: dict, o: O) -> bool:
    t = spec['type']
    sub = spec.get('serialization')
    if sub is not None and sub['type'] in ('function-plain', 'function-wrap'):
        inner = {k: v for k, v in spec.items() if k != 'serialization'}
        uses_inner = sub['type'] == 'function-wrap' or sub.get('when_used', 'always') != 'always'
        return lax_retry(sub.get('return_schema') or {'type': 'any'}, o) or (uses_inner and lax_retry(sub.get('schema') or inner, o))
    if sub is not None and not sub['type'].startswith('include-exclude'):
        return False
    if t in ('model', 'dataclass', 'tuple'):
        return True
    if t == 'list':
        return lax_retry(spec.get('items_schema') or {'type': 'any'}, o)
    if t in ('nullable', 'default', 'custom-error', 'function-before', 'function-after', 'function-wrap'):
        return lax_retry(spec['schema'], o)
    if t == 'union':
        return any(lax_retry(c, o) for c in choices_of(spec))
    if t == 'tagged-union':
        return any(lax_retry(c, o) for c in spec['choices'].values())
    if t in ('int', 'enum'):
        return t == 'int' or spec.get('sub_type') == 'int'
    if t in ('definition-ref', 'definitions'):
        raise Skip
    return False


def choices_of(spec: dict) -> list[dict]:
    return [c[0] if isinstance(c, tuple) else c for c in spec['choices']]


def union_over(choices: list[dict], value: Any, inc: Any, exc: Any, o: O) -> Any:
    if "'generator'" in repr(choices):
        raise Skip  # a member that does not fit may have consumed part of it
    retry = any(lax_retry(c, o) for c in choices)
    for c in choices:
        try:
            return ser(c, value, inc, exc, o.but(check='strict'))
        except SerBad:
            pass
    if o.check != 'strict' and retry:
        for c in choices:
            try:
                return ser(c, value, inc, exc, o.but(check='lax'))
            except SerBad:
                pass
    if o.check != 'none':
        raise Unexpected
    o.warned.append(value)
    return infer(value, inc, exc, o)


@node('union')
def union(spec, value, inc, exc, o):
    choices = choices_of(spec)
    if len(choices) == 1:
        return ser(choices[0], value, inc, exc, o)
    return union_over(choices, value, inc, exc, o)


@node('tagged-union')
def tagged_union(spec, value, inc, exc, o):
    key = spec['discriminator']
    missing: Any = []
    tag = value.get(key, missing) if isinstance(value, dict) else getattr(value, key, missing)
    choices = spec['choices']
    if tag is missing:
        if o.check == 'none':
            o.warned.append(value)
    elif str(tag) in choices:
        chosen = choices[str(tag)]
        retry = any(lax_retry(c, o) for c in choices.values())
        for check in ('strict', 'lax') if retry else ('strict',):
            try:
                return ser(chosen, value, inc, exc, o.but(check=check))
            except SerBad:
                pass
    return union_over(list(choices.values()), value, inc, exc, o)


# --------------------------------------------------------------------------------------------------------- functions
def used(when: str, value: Any, o: O) -> bool:
    if when in ('json', 'json-unless-none') and o.mode != 'json':
        return False
    return not (when in ('unless-none', 'json-unless-none') and value is None)


class Info:
    def __init__(self, inc, exc, o):
        self.include, self.exclude, self.mode = inc, exc, o.mode
        self.by_alias, self.exclude_unset, self.exclude_defaults = o.by_alias, o.exclude_unset, o.exclude_defaults
        self.exclude_none, self.round_trip, self.context = o.exclude_none, o.round_trip, o.context
        self.field_name, self.serialize_as_any = o.field_name, False


def function(spec, sub, value, inc, exc, o):
    wrap = sub['type'] == 'function-wrap'
    inner = sub.get('schema') or {k: v for k, v in spec.items() if k != 'serialization'}
    if not used(sub.get('when_used', 'always'), value, o):
        return ser(inner, value, inc, exc, o)
    f = SER_FUNCTIONS[sub['function'].args[0]]

    def handler(v, key=None):
        if key is None:
            return ser(inner, v, inc, exc, o)
        if isinstance(key, int) and key >= 0:
            unsized(inc)
            unsized(exc)
        d = decide(key, inc, exc)
        if d is None:
            raise pc.PydanticOmit
        return ser(inner, v, *d, o)

    args: list = [value]
    if sub.get('is_field_serializer'):
        if o.model is None:
            raise SerBad('no model')
        args.insert(0, o.model)
    if wrap:
        args.append(handler)
    if sub.get('info_arg'):
        args.append(Info(inc, exc, o))
    try:
        out = f(*args)
    except Unexpected:
        if o.check != 'none':
            raise
        return infer(value, inc, exc, o)
    except SerBad:
        raise
    except Skip:
        raise
    except pc.PydanticSerializationUnexpectedValue:
        if o.check != 'none':
            raise Unexpected from None
        return infer(value, inc, exc, o)
    except Exception as e:
        raise SerBad(str(e)) from None
    return ser(sub.get('return_schema') or {'type': 'any'}, out, None, None, o)


def formatted(spec, sub, value, inc, exc, o):
    if not used(sub.get('when_used', 'json-unless-none'), value, o):
        return value
    fmt = sub.get('formatting_string', '')
    try:
        out = format(value, fmt) if fmt else str(value)
    except Exception as e:
        raise SerBad(str(e)) from None
    if ' at 0x' in out:
        raise Skip
    return out


SERIALIZATIONS = {
    'function-plain': function,
    'function-wrap': function,
    'format': formatted,
    'to-string': formatted,
}
