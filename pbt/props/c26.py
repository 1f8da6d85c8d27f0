"""C26: a literal or enum schema accepts exactly its members, and gives the member itself."""

from __future__ import annotations

import json

import gen as st
import lib
import specs
from core import Test, X, ensure
from lib import Skip, mk
from models import compose, scalars
from pydantic_core import SchemaSerializer, SchemaValidator, ValidationError

RULE = 'non-trivial: the value is a member, or equals a member, or has the type of one (or is a member of another enum)'
ASSUMPTIONS = [
    'a value which equals several members of other types than its own may give any of them',
    'an IntFlag is looked up by its class in python mode only: combined flags from JSON are unspecified',
]


def equal(member, v):
    try:
        hash(member)
    except TypeError:
        return bool(member == v)
    try:
        return hash(member) == hash(v) and bool(member == v)
    except TypeError:
        return False


def find(values: list, v, mode: str) -> set[int]:
    """Which of the values `v` may stand for."""
    if mode == 'strings' and isinstance(v, str):
        r = scalars.bool_from_str(v)
        hits = {i for i, x in enumerate(values) if type(x) is bool and r == ('ok', x)}
        if hits:
            return hits
        r = scalars.int_from_str(v)
        if v not in values and any(type(x) is int and r == ('ok', x) for x in values):
            raise Skip  # does the text of an int stand for it?
    exact = {i for i, x in enumerate(values) if type(x) is type(v) and type(x) in (bool, int, str) and x == v}
    return exact or {i for i, x in enumerate(values) if equal(x, v)}


def expected(values: list) -> str:
    *init, last = map(repr, values)
    return f'{", ".join(init)} or {last}' if init else last


def literal(spec, v, strict, mode):
    values = [mk(x) for x in spec['expected']]
    hits = find(values, v, mode)
    if hits:
        return 'ok', [values[i] for i in hits]
    return 'err', ('literal_error', {'expected': expected(values)})


SUB_TYPES = {'IntE': 'int', 'FlagE': 'int', 'StrE': 'str', 'FloatE': 'float'}


def converted(kind, v, strict, mode):
    r = {'int': scalars.ref_int, 'str': scalars.ref_str, 'float': scalars.ref_float}[kind](v, strict, mode)
    if r is None:
        raise Skip
    return r


def enumeration(spec, v, strict, mode):
    cls = mk(spec['cls'])
    members = list(cls.__members__.values())
    values = [m.value for m in members]
    if mode == 'python' and type(v) is cls:
        return 'ok', [v]
    if strict and mode == 'python':
        return 'err', ('is_instance_of', {'class': spec.get('cls_repr', cls.__qualname__)})
    sub = spec.get('sub_type')
    hits: set = set()
    if sub:
        r = converted(sub, v, strict, mode)
        if r[0] == 'ok':
            hits = {i for i, x in enumerate(values) if x == r[1]}
    else:
        hits = find(values, v, mode)
        if not hits and not strict and mode == 'python' and isinstance(v, (str, int, float)):
            kind = str if isinstance(v, str) else int
            r = converted(kind.__name__, v, False, mode)
            if r[0] == 'ok':
                hits = {i for i, x in enumerate(values) if type(x) is kind and x == r[1]}
    if hits:
        return 'ok', [members[i] for i in hits]
    if mode == 'python':
        try:
            return 'ok', [cls(v)]
        except Exception:
            pass
    elif cls is lib.FlagE:
        raise Skip
    if 'missing' in spec:
        try:
            m = cls._missing_(v)
        except Exception:
            m = None
        if isinstance(m, cls):
            return 'ok', [m]
        if m is not None:
            return 'boom', TypeError
    return 'err', ('enum', {'expected': expected(values)})


# ------------------------------------------------------------------------------------------------------ generation
LITERALS = [
    'a', 'b', 'ab', '', 'é', '1', 'true', 1, 2, 0, -1, 2**62, 2**63, -(2**63), -(2**63) - 1, 2**70, True, False, None, 1.5, 2.0, b'a', b'',
    X('enum', 'PlainE', 'A'), X('enum', 'IntE', 'ONE'), X('enum', 'StrE', 'A'), X('enum', 'FloatE', 'H'), X('enum', 'MixE', 'none'),
    X('str', 'a'), X('int', 2), (1, 2), (), [1], {'a': 1}, frozenset({1}), X('dec', '1.5'), X('d', 2020, 1, 1),
]


def close_to(s, x):
    """Something that could be mistaken for `x`."""
    k = s.draw(8)
    if isinstance(x, bool):
        return specs.pick(s, [int(x), float(x), str(x).lower(), str(x), x])
    if isinstance(x, int):
        return [x, float(x) if abs(x) < 2**1000 else 0.5, str(x), X('int', x), x + 1, x - 1, f' {x}', -x][k]
    if isinstance(x, str):
        return [x, x.encode(), X('str', x), x.upper(), x + ' ', x + 'a', X('ba', x.encode()), x[:-1]][k]
    if isinstance(x, float):
        return [x, str(x), int(x), -x, X('float', x), X('dec', str(x)), x + 1, x / 2][k]
    if isinstance(x, bytes):
        return [x, x.decode(), X('bytes', x), X('ba', x)][k % 4]
    if isinstance(x, X) and x.kind == 'enum':
        m = lib.ENUMS[x.args[0]][x.args[1]].value
        return x if k < 3 else close_to(s, m) if k < 6 else m
    if isinstance(x, tuple):
        return [x, list(x)][k % 2]
    if isinstance(x, list):
        return [x, tuple(x), X('list', x)][k % 3]
    return x


def plain(x):
    return isinstance(x, (str, int, float, bool, type(None))) or isinstance(x, (list, tuple)) and all(map(plain, x)) or \
        isinstance(x, dict) and all(isinstance(k, str) and plain(v) for k, v in x.items())


def value(s, members, mode):
    k = s.draw(10)
    if k < 7:
        v = close_to(s, specs.pick(s, members))
    elif k == 7:
        v = specs.pick(s, LITERALS)
    elif k == 8:
        name = specs.pick(s, list(lib.ENUMS))
        v = X('enum', name, specs.pick(s, list(lib.ENUMS[name].__members__)))
    else:
        v = specs.pick(s, ['odd', 'bad', 'zero', 'empty', 'no', 'other', 'x', 'X', [1], {}, 'nan', 3, X('opaque'), 1e308, '٣', 'a\udc80', 'zzz', None])
    if mode == 'json':
        v = mk(v) if plain(v) else specs.pick(s, ['a', 1, True, None, 1.0, 'b', 'zz', [1], {'a': 1}])
        v = list(v) if isinstance(v, tuple) else v
    elif mode == 'strings':
        v = v if isinstance(v, str) else str(v) if isinstance(v, (int, float)) else specs.small_str(s)
    return v


def literal_strategy(mode):
    def go(s):
        exp = [specs.pick(s, LITERALS) for _ in range(1 + s.draw(5))]
        case = {'schema': {'type': 'literal', 'expected': exp}, 'value': value(s, exp, mode), 'mode': mode}
        return flags(s, case)

    return st.Strategy(go)


def flags(s, case):
    if s.draw(4) == 3:
        case['strict'] = bool(s.draw(2))
    if s.draw(4) == 3:
        case['within'] = specs.pick(s, ['key', 'list', 'union', 'default'])
    return case


def enum_spec(s):
    name = specs.pick(s, list(lib.ENUMS))
    spec = {'type': 'enum', 'cls': X('enumcls', name)}
    if name in SUB_TYPES and s.draw(8):
        spec['sub_type'] = SUB_TYPES[name]
    if name == 'MissE' and s.draw(4):
        spec['missing'] = True
    if s.draw(8) == 7:
        spec['cls_repr'] = 'Shown'
    if s.draw(6) == 5:
        spec['strict'] = bool(s.draw(2))
    return spec


def enum_strategy(mode):
    def go(s):
        spec = enum_spec(s)
        name = spec['cls'].args[0]
        members = [X('enum', name, m) for m in lib.ENUMS[name].__members__]
        return flags(s, {'schema': spec, 'value': value(s, members, mode), 'mode': mode})

    return st.Strategy(go)


def build_enum(spec):
    cls = mk(spec['cls'])
    out = {**spec, 'cls': cls, 'members': list(cls.__members__.values())}
    if 'missing' in spec:
        out['missing'] = cls._missing_
    return out


def nest(schema, v, within):
    """The schema and value inside of something else, and how to get the result back out."""
    if within == 'key':
        return {'type': 'dict', 'keys_schema': schema}, {v: '1'}, lambda r: next(iter(r))
    if within == 'list':
        return {'type': 'list', 'items_schema': schema}, [v], lambda r: r[0]
    if within == 'union':
        return {'type': 'union', 'choices': [{'type': 'is-instance', 'cls': lib.DictSub}, schema]}, v, lambda r: r
    if within == 'default':
        return {'type': 'default', 'schema': schema, 'default': None}, v, lambda r: r
    return schema, v, lambda r: r


def check(case, rec):
    spec, mode, strict, within = case['schema'], case['mode'], case.get('strict'), case.get('within')
    v = mk(case['value'])
    schema = build_enum(spec) if spec['type'] == 'enum' else compose.build(spec)
    is_strict = strict if strict is not None else spec.get('strict', False)
    seen_mode = mode
    if within == 'key':
        try:
            hash(v)
        except TypeError:
            raise Skip from None
        if mode == 'json':
            if not isinstance(v, str):
                raise Skip
            seen_mode = 'keys'
    elif within == 'list' and mode == 'strings' or within == 'union' and (is_strict or mode != 'python'):
        raise Skip
    elif within == 'union' and isinstance(v, lib.DictSub):
        raise Skip
    if isinstance(v, str) and scalars.has_surrogate(v):
        raise Skip
    if seen_mode == 'keys':  # the text of a key is a str, which also stands for what is not a str
        seen_mode = 'strings'
        if spec['type'] == 'literal' or not spec.get('sub_type'):
            seen_mode = 'json'
            if any(type(mk(x)) in (int, bool) or isinstance(mk(x), (int, bool)) for x in spec.get('expected', [1])):
                raise Skip  # see C05
    want = (literal if spec['type'] == 'literal' else enumeration)(spec, v, is_strict, seen_mode)
    full, x, back = nest(schema, v, within)
    validator = SchemaValidator(full)
    kw = {} if strict is None else {'strict': strict}
    try:
        if mode == 'json':
            got = 'ok', back(validator.validate_json(json.dumps(x), **kw))
        elif mode == 'strings':
            got = 'ok', back(validator.validate_strings(x, **kw))
        else:
            got = 'ok', back(validator.validate_python(x, **kw))
    except ValidationError as e:
        got = 'err', e
    except TypeError as e:
        got = 'boom', e
    rec.label(want[0], spec['type'] if spec['type'] == 'literal' else spec['cls'].args[0])
    values = [mk(m) for m in spec['expected']] if spec['type'] == 'literal' else [m.value for m in mk(spec['cls'])]
    rec.nontrivial(want[0] == 'ok' or any(isinstance(v, type(m)) or type(v).__module__ == 'lib' for m in values))
    ensure(got[0] == want[0], 'accepted or not', got, want)
    if want[0] == 'ok':
        if spec['type'] == 'enum':
            ensure(any(got[1] is m for m in want[1]), 'not the member', got, want)
        else:
            ensure(any(lib.same(got[1], m) for m in want[1]), 'not the expected value', got, want)
    elif want[0] == 'err':
        errors = got[1].errors(include_url=False)
        if within == 'union':
            ensure(errors[-1]['type'] == want[1][0], 'error', errors, want)
        else:
            ensure(len(errors) == 1 and (errors[0]['type'], errors[0].get('ctx')) == want[1], 'error', errors, want)
            ensure(lib.same(errors[0]['input'], v), 'input of the error', errors, v)


def trip_strategy():
    def go(s):
        return {'schema': enum_spec(s), 'pick': s.draw(8), 'by': specs.pick(s, ['json', 'python', 'to_python_json'])}

    return st.Strategy(go)


def check_trip(case, rec):
    spec = case['schema']
    schema = build_enum(spec)
    v, s = SchemaValidator(schema), SchemaSerializer(schema)
    members = schema['members']
    m = members[case['pick'] % len(members)]
    rec.label(spec['cls'].args[0], case['by'])
    rec.nontrivial(True)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter('error')
        ensure(s.to_python(m) is m, 'to_python of a member gives the member', m)
        if case['by'] == 'python':
            ensure(v.validate_python(s.to_python(m)) is m, 'round trip', m)
            return
        value = m.value
        out = json.loads(s.to_json(m)) if case['by'] == 'json' else s.to_python(m, mode='json')
        plain = value.decode() if isinstance(value, bytes) else value
        if isinstance(plain, (tuple, frozenset)):
            plain = list(plain)
        if isinstance(plain, lib.IntE):
            plain = plain.value
        ensure(lib.same(out, plain), 'a member is written as its value', out, plain)
        if isinstance(value, (bytes, tuple, frozenset)) or m is lib.MixE.one:
            return  # not the same in JSON
        ensure(v.validate_json(json.dumps(out)) is m, 'round trip', m, out)


TESTS = [
    Test('literal-python', lambda: literal_strategy('python'), check, 150000, 4000000),
    Test('literal-json', lambda: literal_strategy('json'), check, 100000, 2000000),
    Test('literal-strings', lambda: literal_strategy('strings'), check, 40000, 800000),
    Test('enum-python', lambda: enum_strategy('python'), check, 150000, 4000000),
    Test('enum-json', lambda: enum_strategy('json'), check, 100000, 2000000),
    Test('enum-strings', lambda: enum_strategy('strings'), check, 40000, 800000),
    Test('round-trip', trip_strategy, check_trip, 4000, 20000),
]
