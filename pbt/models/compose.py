"""Reference model of how validators compose.

`run(schema, value, st)` decides a schema by walking it: container, wrapper and model nodes are decided here from their
documentation; every other ("leaf") type is asked of a validator built for that leaf alone.  A disagreement with a
validator built for the whole schema is a broken composition: values, error types, error locations, contexts, inputs."""

from __future__ import annotations

import collections.abc
import copy
import datetime as dt
import decimal
import json
import uuid
from typing import Any, Callable

import pydantic_core as pc
from core import X
from lib import Boom, Skip, mk, same
from pydantic_core import SchemaValidator, ValidationError

SEQ_REFUSED = (str, bytes, bytearray, dict, collections.abc.Mapping)


class Bad(Exception):
    """The value is refused; `errors` is a list of dicts type/loc/input/ctx."""

    def __init__(self, errors: list[dict]):
        self.errors = errors


class Omitted(Exception):
    pass


class UseDefault(Exception):
    pass


def err(type_: str, input_: Any, *loc: Any, **ctx: Any) -> dict:
    return {'type': type_, 'loc': tuple(loc), 'input': input_, 'ctx': ctx}


def bad(type_: str, input_: Any, *loc: Any, **ctx: Any) -> Bad:
    return Bad([err(type_, input_, *loc, **ctx)])


def prefix(errors: list[dict], *loc: Any) -> list[dict]:
    return [{**e, 'loc': (*loc, *e['loc'])} for e in errors]


EXACT, STRICT, LAX = 2, 1, 0
MURKY = [0]  # how often a fit could not be judged


class Track:
    """How well a value fitted the schema: what a smart union goes by."""

    def __init__(self) -> None:
        self.exactness = EXACT
        self.fields: int | None = None  # how many fields of models and the like were set
        self.murky = False  # a failed attempt may have left its mark

    def floor(self, level: int) -> None:
        self.exactness = min(self.exactness, level)

    def count(self, n: int) -> None:
        self.fields = (self.fields or 0) + n


class St:
    """What a validation call carries along."""

    def __init__(self, mode: str = 'python', strict: bool | None = None, config: dict | None = None, **kw: Any):
        self.mode = mode
        self.call_mode = mode  # a call stays one for JSON when a function has made an object of the value
        self.strict = strict  # the argument of validate_*, overrides every schema
        self.config = config or {}
        self.by_alias = kw.get('by_alias')
        self.by_name = kw.get('by_name')
        self.from_attributes = kw.get('from_attributes')
        self.context = kw.get('context')
        self.data: dict | None = None
        self.field_name: str | None = None
        self.defs: dict[str, dict] = kw.get('defs') or {}
        self.track: Track | None = None  # inside of a smart union
        self.partial = bool(kw.get('partial'))  # the value may lack its end: what is wrong with the last item is forgiven
        self.as_key = False  # inside the key of a JSON object: the input is a str, not JSON

    def but(self, **kw: Any) -> St:
        s = copy.copy(self)
        s.__dict__.update(kw)
        return s

    def floor(self, level: int) -> None:
        if self.track is not None:
            self.track.floor(level)

    def murky(self) -> None:
        if self.track is not None:
            self.track.murky = True
            MURKY[0] += 1

    def as_object(self, **kw: Any) -> St:
        """For a value that is a Python object whatever the input was."""
        return self.but(mode='python', as_key=False, **kw)

    def is_strict(self, schema: dict) -> bool:
        if self.strict is not None:
            return self.strict
        return bool(schema.get('strict', self.config.get('strict', False)))


def call_kwargs(st: St) -> dict:
    kw = {}
    if st.strict is not None:
        kw['strict'] = st.strict
    return kw


_CACHE: dict[str, SchemaValidator] = {}


def leaf_validator(schema: dict, config: dict) -> SchemaValidator:
    key = repr((schema, config))
    v = _CACHE.get(key)
    if v is None:
        if len(_CACHE) > 3000:
            _CACHE.clear()
        v = _CACHE[key] = SchemaValidator(build(schema), pc.core_schema.CoreConfig(**config) if config else None)
    return v


def line_errors(e: ValidationError) -> list[dict]:
    out = []
    for x in e.errors(include_url=False):
        ctx = {k: (repr(v) if isinstance(v, BaseException) else v) for k, v in x.get('ctx', {}).items()}
        out.append({'type': x['type'], 'loc': x['loc'], 'input': x['input'], 'ctx': ctx})
    return out


def run_leaf(schema: dict, value: Any, st: St) -> Any:
    if st.call_mode != st.mode and schema['type'] in ('uuid', 'enum') and (st.is_strict(schema) or st.track):
        raise Skip  # these look at the kind of the whole input: unspecified here
    try:
        out = ask_leaf(schema, value, st, **call_kwargs(st))
    except ValidationError as e:
        raise Bad(line_errors(e)) from None
    if st.track is not None:
        st.track.floor(leaf_level(schema, value, st))
    return out


def ask_leaf(schema: dict, value: Any, st: St, **kw: Any) -> Any:
    v = leaf_validator(schema, st.config)
    if st.mode == 'python':
        return v.validate_python(value, **kw)
    if st.mode == 'json' and not st.as_key:
        return v.validate_json(json.dumps(value), **kw)
    return v.validate_strings(value, **kw)


OWN_TYPE = {
    'int': int, 'str': str, 'float': float, 'bytes': bytes, 'date': dt.date, 'datetime': dt.datetime, 'time': dt.time,
    'timedelta': dt.timedelta, 'decimal': decimal.Decimal, 'bool': bool,
}
SELF_EVIDENT = ('none', 'literal', 'is-instance', 'is-subclass')


def leaf_level(schema: dict, value: Any, st: St) -> int:
    """Exact: the value is of the very type; strict: strict mode takes it as well; lax: it does not."""
    t = schema['type']
    if t in SELF_EVIDENT:
        return EXACT
    if t == 'any':
        return STRICT
    if t in ('callable', 'url', 'multi-host-url'):
        return LAX
    if t == 'uuid':
        return EXACT if st.mode != 'python' or isinstance(value, uuid.UUID) else LAX
    if st.as_key:
        return STRICT if t in ('str', 'bytes', 'complex') else LAX  # the text of a key means something else
    try:
        ask_leaf(schema, value, st, strict=True)
    except ValidationError:
        return LAX
    if st.mode == 'strings' or t == 'complex':
        return STRICT
    if t in ('str', 'bytes', 'date', 'datetime', 'time', 'timedelta', 'decimal') and st.mode == 'json':
        return STRICT  # a text or number standing for it
    return EXACT if type(value) is OWN_TYPE[t] else STRICT


NODES: dict[str, Callable[[dict, Any, St], Any]] = {}


def node(*names: str):
    def deco(f):
        for n in names:
            NODES[n] = f
        return f

    return deco


# these look at their parts as they always do
WHOLE = {'tuple', 'model-fields', 'dataclass-args', 'arguments', 'arguments-v3', 'definition-ref', 'function-wrap', 'generator'}


def known_end(it: Any) -> tuple[Any, int]:
    try:
        items = list(it)
    except Exception:
        raise Skip from None  # how far a broken iterator is read ahead is unspecified
    return iter(items), len(items) - 1


def run(schema: dict, value: Any, st: St) -> Any:
    f = NODES.get(schema['type'])
    if st.partial and schema['type'] in WHOLE:
        st = st.but(partial=False)
    return f(schema, value, st) if f else run_leaf(schema, value, st)


def build(schema: Any) -> Any:
    """The core schema a spec stands for: stand-ins become functions and classes."""
    if isinstance(schema, dict):
        return {(mk(k) if isinstance(k, X) else k): build(v) if k not in ('default', 'metadata') else mk(v) for k, v in schema.items()}
    if isinstance(schema, list):
        return [build(x) for x in schema]
    if isinstance(schema, tuple):
        return tuple(build(x) for x in schema)
    return mk(schema)


# ------------------------------------------------------------------------------------------------------- sequences
def loc_item(key: Any) -> Any:
    if isinstance(key, str):
        return ''.join(key)
    try:
        if isinstance(key, int) and -(2**63) <= key < 2**63:
            return int(key)
    except TypeError:
        pass
    return repr(key)


NAMES = {'list': 'List', 'tuple': 'Tuple', 'set': 'Set', 'frozenset': 'Frozenset', 'dict': 'Dictionary'}
CLASSES = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset}
REFUSAL = {'list': 'list_type', 'tuple': 'tuple_type', 'set': 'set_type', 'frozenset': 'frozen_set_type'}


def open_sequence(schema: dict, value: Any, st: St) -> tuple[Any, int | None]:
    """(iterator, known length); raises when the input is not a sequence for this schema."""
    kind = schema['type']
    if st.mode == 'strings' or st.as_key:
        raise bad('set_type' if st.as_key and kind == 'frozenset' else REFUSAL[kind], value)
    if st.mode == 'json':
        if isinstance(value, list):
            st.floor(EXACT if kind == 'list' else STRICT)
            return iter(value), len(value)
        raise bad(REFUSAL[kind], value)
    if isinstance(value, CLASSES[kind]):
        return iter(value), len(value)
    if not st.is_strict(schema):
        if isinstance(value, (list, tuple, set, frozenset)):
            st.floor(LAX)
            return iter(value), len(value)
        if not isinstance(value, SEQ_REFUSED):
            try:
                it = iter(value)
                st.floor(LAX)
                return it, None
            except TypeError:
                pass
    raise bad(REFUSAL[kind], value)


def next_item(it: Any, value: Any, index: int) -> Any:
    try:
        return True, next(it)
    except StopIteration:
        return False, None
    except Exception as e:
        raise bad('iteration_error', value, index, error=f'{type(e).__name__}: {e}') from None


@node('list')
def run_list(schema: dict, value: Any, st: St) -> Any:
    it, length = open_sequence(schema, value, st)
    if st.partial:
        it, last = known_end(it)
    else:
        last = -1
    part, st = st, st.but(partial=False) if st.partial else st
    items = schema.get('items_schema') or {'type': 'any'}
    lo, hi = schema.get('min_length'), schema.get('max_length')
    out: list = []
    errors: list[dict] = []
    index = counted = 0
    while True:
        more, item = next_item(it, value, index)
        if not more:
            break
        problem = None
        try:
            if items['type'] != 'any':  # any item is as good as another
                item = run(items, item, part if index == last else st)
        except Omitted:
            index += 1
            continue
        except Bad as e:
            problem = prefix(e.errors, index) if index != last else []
            if index == last:
                st.murky()  # how good a match what was dropped is counted as

        index += 1
        counted += 1
        if hi is not None and counted > hi:  # too many items wins over anything wrong with them
            raise bad('too_long', value, field_type='List', max_length=hi, actual_length=length)
        if problem is None:
            out.append(item)
        elif problem:
            errors += problem
            if schema.get('fail_fast'):
                raise Bad(errors)
    if errors:
        raise Bad(errors)
    if lo is not None and len(out) < lo:
        raise bad('too_short', value, field_type='List', min_length=lo, actual_length=len(out))
    return out


@node('set', 'frozenset')
def run_set(schema: dict, value: Any, st: St) -> Any:
    kind = schema['type']
    it, _ = open_sequence(schema, value, st)
    if st.partial:
        it, last = known_end(it)
    else:
        last = -1
    part, st = st, st.but(partial=False) if st.partial else st
    items = schema.get('items_schema') or {'type': 'any'}
    lo, hi = schema.get('min_length'), schema.get('max_length')
    out: set = set()
    errors: list[dict] = []
    index = 0
    while True:
        more, item = next_item(it, value, index)
        if not more:
            break
        try:
            valid = run(items, item, part if index == last else st)
            try:
                out.add(valid)
            except TypeError:
                raise bad('set_item_not_hashable', item) from None
            if hi is not None and len(out) > hi:
                raise Bad([])
        except Omitted:
            pass
        except Bad as e:
            if not e.errors:
                raise bad('too_long', value, field_type=NAMES[kind], max_length=hi, actual_length=None) from None
            if index != last:
                errors += prefix(e.errors, index)
            else:
                st.murky()
            if errors and schema.get('fail_fast'):
                raise Bad(errors) from None
        index += 1
    if errors:
        raise Bad(errors)
    if lo is not None and len(out) < lo:
        raise bad('too_short', value, field_type=NAMES[kind], min_length=lo, actual_length=len(out))
    return CLASSES[kind](out)


@node('tuple')
def run_tuple(schema: dict, value: Any, st: St) -> Any:
    it, length = open_sequence(schema, value, st)
    schemas = schema['items_schema']
    var = schema.get('variadic_item_index')
    lo, hi, fast = schema.get('min_length'), schema.get('max_length'), schema.get('fail_fast')
    items: list = []
    broken: Bad | None = None
    while True:
        try:
            more, item = next_item(it, value, len(items))
        except Bad as e:
            broken = e
            break
        if not more:
            break
        items.append(item)
    # which schema decides which position
    if var is None:
        plan = list(enumerate(schemas))
    else:
        fixed = len(schemas) - 1
        extra = max(0, len(items) - fixed)
        seq = schemas[:var] + [schemas[var]] * extra + schemas[var + 1 :]
        plan = list(enumerate(seq))
    out: list = []
    errors: list[dict] = []
    stop = False
    for i, sub in plan:
        if i < len(items):
            try:
                out.append(run(sub, items[i], st))
            except Omitted:
                pass
            except Bad as e:
                errors += prefix(e.errors, i)
            else:
                if hi is not None and len(out) > hi:
                    raise bad('too_long', value, field_type='Tuple', max_length=hi, actual_length=length)
        else:
            try:
                has, v = default_of(sub, st)
            except Bad as e:
                raise Bad(prefix(e.errors, i)) from None
            if has:
                out.append(v)
            else:
                errors.append(err('missing', value, i))
        if fast and errors:
            if broken and var is not None:
                raise Skip  # how far the input is read ahead is unspecified
            stop = i < len(items)  # the broken iterator was not asked any further
            break
    if not stop and var is None and len(items) > len(schemas):
        raise bad('too_long', value, field_type='Tuple', max_length=len(schemas), actual_length=length)
    if broken and not stop:
        raise broken
    if lo is not None and len(out) < lo:
        errors.append(err('too_short', value, field_type='Tuple', min_length=lo, actual_length=len(out)))
    if errors:
        raise Bad(errors)
    return tuple(out)


# ------------------------------------------------------------------------------------------------------------ dict
@node('dict')
def run_dict(schema: dict, value: Any, st: St) -> Any:
    if st.as_key:
        raise bad('dict_type', value)
    ok = isinstance(value, dict) or (
        st.mode == 'python' and not st.is_strict(schema) and isinstance(value, collections.abc.Mapping)
    )
    if not ok:
        raise bad('dict_type', value)
    keys = schema.get('keys_schema') or {'type': 'any'}
    values = schema.get('values_schema') or {'type': 'any'}
    out: dict = {}
    errors: list[dict] = []
    kst = st.but(as_key=True) if st.mode == 'json' else st
    if st.mode == 'strings' and not all(isinstance(x, (str, dict)) for x in (*value, *value.values())):
        raise Skip
    part, st = st, st.but(partial=False) if st.partial else st
    kst = kst.but(partial=False) if kst.partial else kst
    last = len(value) - 1 if part.partial else -1
    for i, (k, v) in enumerate(value.items()):
        good = True
        try:
            k2 = run(keys, k, kst)
        except Omitted:
            continue
        except Bad as e:
            errors += prefix(e.errors, loc_item(k), '[key]')
            good = False
        try:
            v2 = run(values, v, part if i == last else st)
        except Omitted:
            continue
        except Bad as e:
            if i != last:
                errors += prefix(e.errors, loc_item(k))
            else:
                st.murky()
            continue
        if good:
            try:
                out[k2] = v2
            except TypeError:
                raise Skip from None  # a key schema that gives unhashable keys
    if errors:
        raise Bad(errors)
    lo, hi = schema.get('min_length'), schema.get('max_length')
    if lo is not None and len(out) < lo:
        raise bad('too_short', value, field_type='Dictionary', min_length=lo, actual_length=len(out))
    if hi is not None and len(out) > hi:
        raise bad('too_long', value, field_type='Dictionary', max_length=hi, actual_length=len(out))
    return out


# -------------------------------------------------------------------------------------------------------- wrappers
@node('nullable')
def run_nullable(schema: dict, value: Any, st: St) -> Any:
    if value is None:
        return None
    return run(schema['schema'], value, st)


DEFAULTS: dict[str, Callable[[dict, St], tuple[bool, Any]]] = {}


OBJECTS: dict[int, Any] = {}


def default_object(schema: dict) -> Any:
    """The object that is the default: one and the same if it's hashable, else a copy each time."""
    if id(schema) in OBJECTS:
        return OBJECTS[id(schema)]
    v = mk(schema['default'])
    try:
        hash(v)
    except TypeError:
        return v
    OBJECTS[id(schema)] = v
    return v


def default_of(schema: dict, st: St) -> tuple[bool, Any]:
    """What a schema contributes when there is no value."""
    t = schema['type']
    if t in DEFAULTS:
        return DEFAULTS[t](schema, st)
    if t != 'default':
        if t == 'union' and len(schema['choices']) == 1 and schema.get('auto_collapse', True):
            c = schema['choices'][0]
            return default_of(c[0] if isinstance(c, tuple) else c, st)
        if t == 'chain' and len(schema['steps']) == 1:
            return default_of(schema['steps'][0], st)
        return False, None
    if 'default' in schema:
        v = default_object(schema)
    elif 'default_factory' in schema:
        f = mk(schema['default_factory'])
        v = f({} if st.data is None else st.data) if schema.get('default_factory_takes_data') else f()
    else:
        return False, None
    if schema.get('validate_default', st.config.get('validate_default')):
        try:
            v = run(schema['schema'], v, st.as_object(partial=False))
        except Boom:
            if schema.get('on_error') == 'omit':
                raise Skip from None
            raise
        except (Bad, UseDefault, Omitted):
            st.murky()
            if schema.get('on_error') == 'omit':
                raise Omitted from None
            raise
    return True, v


@node('default')
def run_default(schema: dict, value: Any, st: St) -> Any:
    if value is pc.PydanticUndefined:
        return default_of(schema, st)[1]
    try:
        return run(schema['schema'], value, st)
    except Omitted:
        st.murky()
        if schema.get('on_error') == 'default':
            return default_of(schema, st)[1]
        raise
    except UseDefault:
        st.murky()
        has, v = default_of(schema, st)
        if has:
            return v
        raise
    except Boom:
        if schema.get('on_error', 'raise') != 'raise':
            raise Skip from None  # is hidden as well: unspecified
        raise
    except Bad:
        how = schema.get('on_error', 'raise')
        if how == 'raise':
            raise
        st.murky()
        if how == 'omit':
            raise Omitted from None
        return default_of(schema, st)[1]


# ---------------------------------------------------------------------------------------------------------- outcome
def outcome(schema: dict, value: Any, st: St) -> tuple[str, Any]:
    OBJECTS.clear()
    try:
        return 'ok', run(schema, value, st)
    except Bad as e:
        return 'err', e.errors
    except Omitted:
        return 'omit', None
    except UseDefault:
        return 'use_default', None
    except Boom:
        return 'boom', None


def actual(v: SchemaValidator, value: Any, st: St, text: str | None = None) -> tuple[str, Any]:
    kw = call_kwargs(st)
    if st.partial:
        kw['allow_partial'] = st.partial_arg
    for k in ('by_alias', 'by_name', 'from_attributes', 'context'):
        x = getattr(st, k)
        if x is not None and not (k == 'from_attributes' and st.mode != 'python'):
            kw[k] = x
    try:
        if st.mode == 'python':
            return 'ok', v.validate_python(value, **kw)
        if st.mode == 'json':
            return 'ok', v.validate_json(json.dumps(value) if text is None else text, **kw)
        return 'ok', v.validate_strings(value, **kw)
    except ValidationError as e:
        return 'err', line_errors(e)
    except pc.SchemaError as e:
        if 'PydanticOmit' in str(e) or 'Omit' in str(e):
            return 'omit', None
        if 'UseDefault' in str(e):
            return 'use_default', None
        raise
    except Boom:
        return 'boom', None


def same_outcome(a: tuple[str, Any], b: tuple[str, Any]) -> bool:
    if a[0] != b[0]:
        return False
    if a[0] != 'err':
        return same(a[1], b[1])
    return same_errors(a[1], b[1])


def same_errors(a: list[dict], b: list[dict]) -> bool:
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x['type'] != y['type'] or not same(x['loc'], y['loc']):
            return False
        if x['ctx'] != y['ctx']:
            return False
        if not same(x['input'], y['input']):
            return False
    return True
