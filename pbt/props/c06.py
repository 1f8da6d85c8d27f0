"""C06: validation ends in a result or a ValidationError; strict mode only refuses more."""

from __future__ import annotations

import copy
import json

import gen as st
import lib
import pydantic_core as pc
import specs
from core import Test, ensure
from lib import Skip, X, mk, same
from models import compose, everything, evil
from models.compose import Boom
from pydantic_core import SchemaError, SchemaValidator, ValidationError
from specs import chance, pick

RULE = 'non-trivial: the validator accepted the value, or refused it in a place inside of it'
ASSUMPTIONS = ['what functions and objects of the user raise (unless it is a ValueError or AssertionError of a function) comes through']

ALL = sorted(lib.EVILS)
USER = (Boom, evil.Evil, pc.PydanticOmit, pc.PydanticUseDefault)


def ends(f, *args, **kw):
    """('ok', value), ('err', errors) or ('user', exception); anything else is a violation."""
    try:
        return 'ok', f(*args, **kw)
    except ValidationError as e:
        ensure(e.error_count() > 0, 'a ValidationError without errors')
        return 'err', lib.err_list(e)
    except USER as e:
        return 'user', type(e)
    except AttributeError as e:
        if type(e.obj).__module__ == 'lib' and 'has no attribute' in str(e):
            raise Skip from None  # an instance that hasn't got all the fields of its class
        raise
    except TypeError as e:
        if 'unhashable' in str(e):
            raise Skip from None  # (keys of dicts; unspecified)
        raise
    except SchemaError as e:
        if 'Uncaught' in str(e):
            raise Skip from None  # PydanticOmit or PydanticUseDefault with nobody to notice
        raise


def validator(case):
    try:
        return SchemaValidator(compose.build(case['schema']), case.get('config'))
    except SchemaError:
        raise Skip from None


def kwargs(case):
    return {k: case[k] for k in ('strict', 'from_attributes', 'context') if k in case}


ONCE = ("'generator'", "'gen'", "'badgen'", "'iter'", "X('keys'", "X('values'", "X('items'")


def check_ends(case, rec):
    v = validator(case)
    kw = kwargs(case)
    mode = case['mode']
    once = any(k in repr(case) for k in ONCE) or 'frozenset({' in repr(case['value']) or "X('set" in repr(case['value']) or 'nan' in repr(case['value'])
    value = mk(case['value'])
    if mode == 'python':
        got = ends(v.validate_python, value, **kw)
        if not once:
            ensure(ends(v.isinstance_python, mk(case['value']), **kw) == (('ok', got[0] == 'ok') if got[0] != 'user' else got), 'isinstance_python says something else', got)
            again = ends(v.validate_python, mk(case['value']), **kw)
            ensure(again[0] == got[0] and (got[0] == 'ok' or again[1] == got[1]), 'another outcome the second time', again, got)
    elif mode == 'json':
        kw.pop('from_attributes', None)
        text = json.dumps(value)
        got = ends(v.validate_json, text, **kw)
        for other in (text.encode(), bytearray(text.encode())):
            again = ends(v.validate_json, other, **kw)
            ensure(again[0] == got[0] and (got[0] == 'ok' or again[1] == got[1]), 'str and bytes have other outcomes', again, got)
    else:
        kw.pop('from_attributes', None)
        got = ends(v.validate_strings, value, **kw)
    rec.label(got[0], case['schema']['type'])
    rec.nontrivial(got[0] == 'ok' or any(loc for _, loc in got[1]) if got[0] != 'user' else False)
    repr(v), str(v)


# ------------------------------------------------------------------------------------------------------ strict or lax
def own_strictness(schema):
    """Whether the schema itself says what is strict, or does something else in strict mode."""
    if isinstance(schema, X):
        return False
    if isinstance(schema, dict):
        if 'strict' in schema or schema.get('type') in ('lax-or-strict', 'default') or schema.get('mode') == 'left_to_right' or 'custom_error_type' in schema and schema.get('type') in ('union', 'tagged-union'):
            return True
        return any(own_strictness(x) for k, x in schema.items() if k != 'expected')
    if isinstance(schema, (list, tuple)):
        return any(map(own_strictness, schema))
    return False


def functions_in(schema):
    return "'function-" in repr(schema) or "'call'" in repr(schema) or 'post_init' in repr(schema)


def check_strict(case, rec):
    """Whatever strict mode accepts, lax mode accepts, with the same result."""
    if own_strictness(case['schema']) or functions_in(case['schema']) or any(k in repr(case) for k in ONCE) or 'Evil' in repr(case['value']):
        raise Skip
    if 'from_attributes' in repr(case) and "X('mapping'" in repr(case['value']):
        raise Skip  # (only lax mode takes it for a mapping; strict mode looks at its attributes)
    case = {**case, 'config': {k: x for k, x in case.get('config', {}).items() if k != 'strict'}}
    v = validator(case)
    kw = kwargs(case)
    kw.pop('strict', None)
    mode = case['mode']
    if mode == 'python':
        run = lambda strict: ends(v.validate_python, mk(case['value']), strict=strict, **kw)  # noqa: E731
    else:
        kw.pop('from_attributes', None)
        text = json.dumps(mk(case['value'])) if mode == 'json' else None
        run = (lambda strict: ends(v.validate_json, text, strict=strict, **kw)) if mode == 'json' else (lambda strict: ends(v.validate_strings, mk(case['value']), strict=strict, **kw))
    lax, strict, unset = run(False), run(True), run(None)
    rec.label(f'{strict[0]} {lax[0]}')
    rec.nontrivial(strict[0] == 'ok')
    if strict[0] == 'ok':
        ensure(lax[0] == 'ok', 'strict mode accepts what lax mode refuses', strict, lax)
        ensure("'union'" in repr(case['schema']) or same(lax[1], strict[1]) or "X('set'" in repr(case) or specs.has_set(case['value']), 'strict mode gives something else', strict, lax)
    if lax[0] == 'err' and unset[0] == 'err':
        ensure(lax[1] == unset[1], 'lax is not the default', lax, unset)
    else:
        ensure(lax[0] == unset[0], 'lax is not the default', lax, unset)


# --------------------------------------------------------------------------------------- constrained leaves, extreme values
CONSTRAINTS = {
    'int': {'ge': [0, -2**63, 10**30], 'gt': [1, 2**63 - 1], 'le': [5, 2**64], 'lt': [5, -2**63 - 1], 'multiple_of': [1, -1, 3, 2**63, 10**40]},
    'float': {'ge': [0.0, -1e308], 'gt': [0.5], 'le': [5, 1e308], 'lt': [5.0, 5e-324], 'multiple_of': [0.1, 1e-300, 1e300, -2.0], 'allow_inf_nan': [True, False]},
    'decimal': {'ge': [X('dec', '0'), X('dec', '1E+5000')], 'gt': [X('dec', '0.5')], 'le': [X('dec', '5')], 'lt': [X('dec', '-1E-5000')], 'multiple_of': [X('dec', '0.1'), X('dec', '1E-400'), X('dec', '7E+400')],
                'max_digits': [1, 2, 5, 40], 'decimal_places': [0, 1, 3, 6, 50]},
    'str': {'min_length': [0, 1, 3], 'max_length': [0, 1, 3, 10], 'pattern': ['^a', '\\d$', '.', '^$', '(?i)É'], 'strip_whitespace': [True, False], 'to_lower': [True], 'to_upper': [True],
            'regex_engine': ['rust-regex', 'python-re'], 'coerce_numbers_to_str': [True, False]},
    'bytes': {'min_length': [0, 1, 3], 'max_length': [0, 1, 10]},
    'date': {'ge': [X('date', 2000, 1, 1)], 'lt': [X('date', 9999, 12, 31)], 'now_op': ['past', 'future'], 'now_utc_offset': [0, 86399, -86399]},
    'time': {'ge': [X('t', 1, 0, 0, 0, None)], 'lt': [X('t', 23, 59, 59, 999999, None), X('t', 1, 0, 0, 0, 'utc')], 'tz_constraint': ['aware', 'naive', 0, 3600], 'microseconds_precision': ['truncate', 'error']},
    'datetime': {'ge': [X('dt', 1970, 1, 1, 0, 0, 0, 0)], 'lt': [X('dt', 9999, 12, 31, 23, 59, 59, 999999), X('dt', 1969, 1, 1, 0, 0, 0, 5, 'utc')], 'tz_constraint': ['aware', 'naive', 0, 3600], 'now_op': ['past', 'future'],
                 'now_utc_offset': [0, 86399, -86399], 'microseconds_precision': ['truncate', 'error']},
    'timedelta': {'ge': [X('td', 0, 0, 0), X('td', -999999999, 0, 0)], 'lt': [X('td', 999999999, 0, 0), X('td', 0, 0, 1)], 'microseconds_precision': ['truncate', 'error']},
    'uuid': {'version': [1, 3, 4, 5, 6, 7, 8]}, 'complex': {}, 'bool': {}, 'none': {}, 'callable': {}, 'is-instance': {'cls': [X('cls', 'int')]},
    'url': {'max_length': [0, 5, 100], 'allowed_schemes': [['http'], []], 'host_required': [True], 'default_host': ['localhost'], 'default_port': [1, 65535], 'default_path': ['/x']},
    'multi-host-url': {'max_length': [0, 5, 100], 'allowed_schemes': [['http', 'redis']], 'host_required': [True], 'default_host': ['localhost'], 'default_port': [1, 65535], 'default_path': ['/x']},
    'literal': {'expected': [['a', 1], [True, b'x'], [None, 10**30, 'é'], [X('enum', 'IntE', 'ONE'), 2]]}, 'json': {'schema': [{'type': 'int'}, {'type': 'str'}, {'type': 'decimal'}]},
}
BASES = {k: list(v) for k, v in {
    'text': ['', ' ', '0', '-0', '1', '0.0', '0.00', '00.5', '1e5', '1E-7', '1e-400', '1e400', '-1e4000', '123456789.123456789', '9' * 30, '9' * 5000, '1_000', '1__0', '+5', '- 5', '\u0661', 'inf', '-Infinity', 'nan', 'sNaN', 'NaN123',
             '1.', '.5', '2020-01-01', '0000-01-01', '9999-12-31', '10000-01-01', '2020-02-30', '2020-01-01T00:00', '2020-01-01T23:59:59.9999999+23:59', '0001-01-01T00:00:00+23:59', '9999-12-31T23:59:59-23:59', '12:30', '24:00', '23:59:59.9999999Z',
             'P1D', 'P999999999D', '-P999999999DT1S', 'P1000000000D', 'P1Y2M', 'PT0.0000001S', '1 day, 0:00:00', '-1 days', '99999999999', '-99999999999', '253402300800', '-62135596801', '1e20', 'true', 'ON', 'null',
             'http://a', 'http://a,b:1,c/?#', 'x:', '//', 'http://[::1]:65536', 'redis://u:p@h,', 'file:///', 'a@b', '1+2j', 'j', 'infj', '[]', '{"a": 1}', '"x"', '[' * 300,
             '12345678-1234-5678-1234-567812345678', '{12345678123456781234567812345678}', 'urn:uuid:12345678123456781234567812345678', '\x00', '\n1\n', 'é', '\U0001f600', 'ǅ', 'ẞ'],
    'number': [0, 1, -1, 2**31, 2**53 + 1, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64, 10**30, 10**400, 0.0, -0.0, 0.5, 1e-320, 1e16, 1e300, -1e300, 86399.9999999, 86400.0, 253402300799.9999999, -62135596800.0, 1e20, 2e10, -2e10, 2e13],
    'object': [X('dec', '0.0'), X('dec', '1E+6000'), X('dec', '-1E-6000'), X('dec', 'NaN'), X('dec', 'sNaN'), X('dec', '-Infinity'), X('dec', '0E+3'), X('int', 5), X('float', 2.5), X('td', -999999999, 0, 0), X('td', 999999999, 86399, 999999),
               X('dt', 1, 1, 1, 0, 0, 0, 0, 'utc'), X('dt', 9999, 12, 31, 23, 59, 59, 999999), X('date', 1, 1, 1), X('date', 9999, 12, 31), X('t', 0, 0, 0, 0, 'utc'), X('cplx', float('inf'), -0.0), True, False, None, float('nan'), float('inf'), -float('inf')],
}.items()}


def leaves_case(s):
    mode = pick(s, ['python', 'python', 'python', 'json', 'strings'])
    t = pick(s, sorted(CONSTRAINTS))
    options = CONSTRAINTS[t]
    spec = {'type': t}
    for k in options:
        if k in ('cls', 'expected') or chance(s, 1, 3):
            spec[k] = pick(s, options[k])
    case = {'mode': mode}
    k = s.draw(12)
    if k == 0:
        spec = {'type': 'union', 'choices': [spec, {'type': pick(s, ['int', 'date', 'float', 'none'])}]}
    elif k == 1:
        spec = {'type': 'nullable', 'schema': spec}
    kind = 'text' if mode == 'strings' or s.draw(2) else pick(s, ['number', 'number', 'object'] if mode == 'python' else ['number'])
    value = pick(s, BASES[kind])
    if kind == 'text':
        for _ in range(pick(s, (0, 0, 1, 2))):
            i = s.draw(len(value) + 1)
            c = pick(s, ['', '0', '9', '-', '.', ' ', ':', 'Z', 'T', 'e', '\ud800', '\udfff', '\x00', 'é', ',', '@', '%', '['])
            value = value[:i] + c + value[i + s.draw(2):]
        if mode == 'python':
            k = s.draw(8)
            if k == 0:
                value = X('str', value)
            elif k == 1:
                value = value.encode('utf-8', 'surrogatepass')
            elif k == 2:
                value = X('ba', value.encode('utf-8', 'surrogatepass'))
    if k == 11:
        spec, value = {'type': 'list', 'items_schema': spec}, [value, value]
    case.update(schema=spec, value=value)
    if chance(s, 1, 4):
        case['config'] = everything.config(s)
    return case


def check_leaves(case, rec):
    check_ends(case, rec)
    check_strict(case, rec)


# -------------------------------------------------------------------------------------------------- objects that misbehave
def evil_case(s):
    case = everything.case_of('python')(s)
    spots = [0]

    def put(v, depth=0):
        if chance(s, 1, 4 if depth else 6) and not isinstance(v, X):
            spots[0] += 1
            return X('evil', pick(s, ALL), pick(s, ['dict', 'list', 'object', 'str', 'int', 'tuple', 'mapping', 'set', 'iter', 'model', 'dc']), v)
        if isinstance(v, list):
            return [put(x, depth + 1) for x in v]
        if isinstance(v, tuple):
            return tuple(put(x, depth + 1) for x in v)
        if isinstance(v, dict):
            return {k: put(x, depth + 1) for k, x in v.items()}
        return v

    case['value'] = put(case['value'])
    if not spots[0]:
        case['value'] = X('evil', pick(s, ALL), pick(s, ['dict', 'list', 'object', 'str', 'int', 'mapping', 'set', 'iter', 'model']), case['value'] if isinstance(case['value'], (dict, list)) else {})
    return case


PYTHON = (TypeError, AttributeError, ValueError, OverflowError, MemoryError, UnicodeError)


def check_evil(case, rec):
    v = validator(case)
    kw = kwargs(case)
    try:
        value = mk(case['value'])
    except (TypeError, evil.Evil):
        raise Skip from None
    allowed = USER
    if any(f"'{w}'" in repr(case['value']) for w in evil.WRONG):
        allowed = (*USER, *PYTHON)  # Python itself complains about what was returned
    try:
        v.validate_python(value, **kw)
        rec.label('ok')
    except ValidationError as e:
        rec.label('err')
        try:
            e.errors()
            str(e), repr(e)
        except allowed:
            pass
    except allowed:
        rec.label('user')
    except SchemaError as e:
        if 'Uncaught' in str(e):
            raise Skip from None
        raise
    except AttributeError as e:
        if type(e.obj).__module__ in ('lib', 'models.evil') and 'has no attribute' in str(e):
            raise Skip from None  # (no full instance of the class)
        raise
    rec.nontrivial()
    try:
        v.isinstance_python(mk(case['value']), **kw)
    except (*allowed, AttributeError, SchemaError):
        pass


# ------------------------------------------------------------------------------ functions that change what's validated
def mutating_case(s):
    """A container, with a function for its items (of validators and of serializers) that changes it."""
    kind = pick(s, ['dict', 'set', 'list', 'frozenset', 'tuple', 'typed-dict', 'model', 'model-fields', 'any', 'mapping', 'keys'])
    n = s.draw(6)
    return {'kind': kind, 'n': n, 'at': s.draw(7), 'op': pick(s, ['clear', 'pop', 'add', 'swap', 'add2']), 'mode': pick(s, ['python', 'json', 'text', 'isinstance']), 'max': pick(s, [None, 3])}


def check_mutating(case, rec):
    kind, n, op = case['kind'], case['n'], case['op']
    calls = [0]
    dicty = kind in ('dict', 'typed-dict', 'model', 'model-fields', 'mapping', 'keys', 'any')
    obj: object = {f'k{i}': i for i in range(n)} if dicty else list(range(n)) if kind == 'list' else set(range(n)) if kind in ('set', 'frozenset') else tuple(range(n))
    target = obj

    def change():
        calls[0] += 1
        if calls[0] != case['at'] or isinstance(target, tuple):
            return
        if op in ('clear', 'pop', 'swap') and target:
            if op == 'clear':
                target.clear()
            elif dicty:
                target.popitem()
            else:
                target.pop()
        if op in ('add', 'swap', 'add2'):
            for i in range(2 if op == 'add2' else 1):
                new = 100 + len(target) + i
                if dicty:
                    target[f'k{new}'] = new
                else:
                    (target.append if isinstance(target, list) else target.add)(new)

    def val(x):
        change()
        return x

    class Item:
        @property
        def a(self):
            change()
            return 1

    item = {'type': 'function-after', 'function': {'type': 'no-info', 'function': val}, 'schema': {'type': 'any'},
            'serialization': {'type': 'function-plain', 'function': val, 'is_field_serializer': False, 'info_arg': False}}
    fields_ = {f'k{i}': {'type': 'typed-dict-field', 'schema': item, 'required': False} for i in range(2)}
    if kind in ('dict', 'keys', 'mapping'):
        schema = {'type': 'dict', ('keys_schema' if kind == 'keys' else 'values_schema'): item}
    elif kind == 'typed-dict':
        schema = {'type': kind, 'fields': fields_, 'extra_behavior': 'allow', 'extras_schema': item}
    elif kind in ('model', 'model-fields'):
        schema = {'type': 'model-fields', 'fields': {k: {**f, 'type': 'model-field', 'schema': {'type': 'default', 'schema': item, 'default': 0}} for k, f in fields_.items()}, 'extra_behavior': 'allow', 'extras_schema': item}
        for f in schema['fields'].values():
            f.pop('required')
    elif kind == 'any':
        schema = {'type': 'function-before', 'function': {'type': 'no-info', 'function': val}, 'schema': {'type': 'any'}}
    elif kind == 'tuple':
        schema = {'type': 'tuple', 'items_schema': [item], 'variadic_item_index': 0}
    else:
        schema = {'type': kind, 'items_schema': item}
        if case['max']:
            schema['max_length'] = case['max']
    if kind == 'frozenset' and case['at'] % 2:
        schema['type'] = 'list'
    if kind == 'mapping':
        obj = evil.Mapping()
        object.__setattr__(obj, 'd', target)
    known = (RuntimeError, pc.PydanticSerializationError)
    try:
        v = SchemaValidator(schema)
        if case['mode'] == 'isinstance':
            v.isinstance_python(obj)
        else:
            v.validate_python(obj)
        rec.label('ok')
    except (*known, ValidationError) as e:
        rec.label(type(e).__name__)
    rec.nontrivial(0 < case['at'] <= calls[0])
    ser = pc.SchemaSerializer(schema)
    calls[0] = 0
    try:
        if case['mode'] == 'text':
            ser.to_json(obj, warnings=False)
        else:
            ser.to_python(obj, mode=case['mode'], warnings=False)
        rec.label('ok')
    except known as e:
        rec.label(type(e).__name__)
    # inference, with items that change the container when they are looked at
    inner = [_Changing(change) for _ in range(min(n, 4))]
    if dicty:
        target.clear()
        target.update({f'k{i}': x for i, x in enumerate(inner)})
    elif isinstance(target, (set, list)):
        target.clear()
        (target.update if isinstance(target, set) else target.extend)(inner)
    calls[0] = 0
    fallback = lambda x: (change(), 1)[1]  # noqa: E731
    for f in (lambda: pc.to_jsonable_python(target, fallback=fallback), lambda: pc.to_json(target, fallback=fallback), lambda: pc.SchemaSerializer({'type': 'any'}).to_python(target, fallback=fallback)):
        try:
            f()
        except known as e:
            rec.label(type(e).__name__)
        calls[0] = 0


class _Changing:
    def __init__(self, f):
        self.f = f


# ------------------------------------------------------------------------------------------------- any bytes as JSON
def bytes_case(s):
    case = everything.case_of('json')(s)
    text = json.dumps(mk(case['value'])).encode()
    for _ in range(s.draw(4)):
        i = s.draw(len(text) + 1)
        k = s.draw(5)
        if k == 0:
            text = text[:i] + bytes([s.draw(256)]) + text[i + 1 :]
        elif k == 1:
            text = text[:i]
        elif k == 2:
            text = text[:i] + pick(s, [b'NaN', b'"', b'\\ud800', b'{', b'[', b'1e999', b'-', b'\xff', b'9' * 30, b'null', b',', b'"a":', b'0.', b'Infinity']) + text[i:]
        elif k == 3:
            j = s.draw(len(text) + 1)
            text = text[:i] + text[min(i, j) : max(i, j)] + text[i:]
        else:
            text = text[:i] + text[i + 1 :]
    case['text'] = text
    del case['value']
    case['partial'] = pick(s, [None, None, True, 'on', 'trailing-strings'])
    return case


def check_bytes(case, rec):
    v = validator(case)
    kw = kwargs(case)
    kw.pop('from_attributes', None)
    if case['partial']:
        kw['allow_partial'] = case['partial']
    got = ends(v.validate_json, case['text'], **kw)
    rec.label(got[0] if got[0] != 'err' else got[1][0][0] if got[1][0][0].startswith('json_') else 'err')
    rec.nontrivial(got[0] != 'err' or got[1][0][0] != 'json_invalid')
    try:
        text = case['text'].decode()
    except UnicodeDecodeError:
        return
    again = ends(v.validate_json, text, **kw)
    ensure(again[0] == got[0] and (got[0] == 'ok' or again[1] == got[1]), 'str and bytes have other outcomes', again, got)


# ----------------------------------------------------------------------------------------------------- serialization
def ser_case(s):
    case = everything.case_of('python')(s)
    case['schema'] = copy.deepcopy(case['schema'])
    if chance(s, 1, 2):
        case['value'] = specs.wrong_value(s, 'python')
    case['kw'] = {k: pick(s, [True, False]) for k in (pick(s, ['by_alias', 'exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any']) for _ in range(s.draw(3)))}
    case['evil'] = chance(s, 1, 4)
    if case['evil']:
        case['value'] = X('evil', pick(s, ALL), pick(s, ['dict', 'list', 'object', 'str', 'int', 'set', 'iter', 'model', 'dc']), case['value'] if isinstance(case['value'], (dict, list)) else {})
    return case


def check_ser(case, rec):
    try:
        ser = pc.SchemaSerializer(compose.build(case['schema']), case.get('config'))
        value = mk(case['value'])
    except (SchemaError, TypeError, evil.Evil):
        raise Skip from None
    out = []
    calls = [lambda kw: ser.to_python(value, **kw), lambda kw: ser.to_python(value, mode='json', **kw), lambda kw: ser.to_json(value, **kw)]
    if any(k in repr(case['value']) for k in ONCE):
        raise Skip
    for f in calls:
        try:
            f({**case['kw'], 'warnings': False})
            out.append('ok')
        except (pc.PydanticSerializationError, pc.PydanticSerializationUnexpectedValue):
            out.append('error')
        except (evil.Evil, Boom):
            out.append('user')
        except (AttributeError, TypeError, ValueError, UnicodeError, KeyError) as e:
            out.append(type(e).__name__)
    rec.label(*out)
    rec.nontrivial(out[0] == 'ok')
    repr(ser), str(ser)


TESTS = [
    Test('leaves', lambda: st.Strategy(leaves_case), check_leaves, 60000, 2000000),
    Test('python', lambda: st.Strategy(everything.case_of('python')), check_ends, 40000, 900000),
    Test('json', lambda: st.Strategy(everything.case_of('json')), check_ends, 24000, 500000),
    Test('strings', lambda: st.Strategy(everything.case_of('strings')), check_ends, 16000, 300000),
    Test('strict-python', lambda: st.Strategy(everything.case_of('python', 2)), check_strict, 40000, 900000),
    Test('strict-json', lambda: st.Strategy(everything.case_of('json', 2)), check_strict, 24000, 500000),
    Test('strict-strings', lambda: st.Strategy(everything.case_of('strings', 2)), check_strict, 12000, 300000),
    Test('evil', lambda: st.Strategy(evil_case), check_evil, 40000, 900000),
    Test('mutating', lambda: st.Strategy(mutating_case), check_mutating, 8000, 100000),
    Test('bytes', lambda: st.Strategy(bytes_case), check_bytes, 30000, 900000),
    Test('serialize', lambda: st.Strategy(ser_case), check_ser, 24000, 500000),
]
