"""C27: nothing but the result is written to; results share no state with the input, with defaults or with each other."""

from __future__ import annotations

import copy
import json

import gen as st
import lib
import pydantic_core as pc
import specs
from core import Test, ensure
from lib import Skip, X, mk, same
from models import compose, everything, fields, functions, recursion, touch, unions
from props.c06 import kwargs
from pydantic_core import SchemaError, SchemaSerializer, SchemaValidator, ValidationError
from specs import chance, pick

RULE = 'non-trivial: the value or the result has a mutable object inside of it'
ASSUMPTIONS = ['functions of the user that change things themselves are not generated', 'iterators are used up by validating them']

ENDS = (ValidationError, lib.Boom, pc.PydanticOmit, pc.PydanticUseDefault, SchemaError, TypeError, AttributeError, KeyError, RuntimeError, ValueError)
ONCE = ("'gen'", "'badgen'", "X('iter'", "'generator'", 'edit', "X('keys'", "X('values'", "X('items'")


def attempt(f, *args, **kw):
    try:
        return 'ok', f(*args, **kw)
    except ValidationError as e:
        return 'err', lib.err_list(e)
    except ENDS as e:
        return 'user', type(e)


def built(case):
    try:
        return compose.build(case['schema'])
    except SchemaError:
        raise Skip from None


def validator(schema, case):
    try:
        return SchemaValidator(schema, case.get('config'))
    except SchemaError:
        raise Skip from None


def text_of(case):
    return json.dumps(mk(case['value']))


def run(v, case, value, **kw):
    kw = {**copy.deepcopy(kwargs(case)), **kw}
    if case['mode'] == 'python':
        return attempt(v.validate_python, value, **kw)
    kw.pop('from_attributes', None)
    return attempt(v.validate_json, json.dumps(value), **kw) if case['mode'] == 'json' else attempt(v.validate_strings, value, **kw)


# ---------------------------------------------------------------------------------------------------- nothing is written
def any_case(s):
    return everything.case_of(pick(s, ['python', 'python', 'json', 'strings']))(s)


def check_untouched(case, rec):
    """Building and validating change neither the schema, the config, the context nor the value."""
    if any(k in repr(case) for k in ONCE):
        raise Skip
    schema = built(case)
    config, context = case.get('config'), {'ctx': [1]}
    value = mk(case['value'])
    snap = touch.snapshot(schema, config, value, context)
    v = validator(schema, case)
    x = touch.changed(snap)
    ensure(x is None, 'building the validator changed', x)
    got = run(v, case, value, context=context)
    x = touch.changed(snap)
    ensure(x is None, 'validating changed', x, got)
    if case['mode'] == 'python':
        attempt(v.isinstance_python, value)
        x = touch.changed(snap)
        ensure(x is None, 'isinstance_python changed', x)
    repr(v)
    try:
        s = SchemaSerializer(schema, config)
    except SchemaError:
        raise Skip from None
    x = touch.changed(snap)
    ensure(x is None, 'building the serializer changed', x)
    for f in (s.to_python, lambda y, **kw: s.to_python(y, mode='json', **kw), s.to_json):
        for y in (value, got[1]):
            dump = case.get('dump', {})
            mine = touch.snapshot(y, dump)
            attempt(f, y, warnings=False, context=context, **dump)
            x = touch.changed(snap) or touch.changed(mine)
            ensure(x is None, 'serializing changed', x)
    rec.label(case['mode'], got[0])
    rec.nontrivial(any(map(touch.mutable, touch.reachable(value))) or any(map(touch.mutable, touch.reachable(got[1]))))


def filters(s, depth):
    keys = [pick(s, ['a', 'b', 0, -1, '__all__', '__all__', 1, 'x']) for _ in range(1 + s.draw(3))]
    if depth == 0 or chance(s, 1, 4):
        return set(keys)
    return {k: True if chance(s, 1, 4) else filters(s, depth - 1) for k in keys}


def untouched_case(s):
    case = any_case(s)
    case['dump'] = {k: pick(s, [True, False]) for k in (pick(s, ['by_alias', 'exclude_unset', 'exclude_defaults', 'exclude_none', 'round_trip', 'serialize_as_any']) for _ in range(s.draw(3)))}
    if chance(s, 1, 2):
        case['dump'][pick(s, ['include', 'exclude'])] = filters(s, 3)
    return case


# ------------------------------------------------------------------------------------- the same again after all is spoilt
def again_case(s):
    return everything.case_of(pick(s, ['python', 'python', 'json', 'strings']), 3, (0, 0, 8))(s)


def check_again(case, rec):
    """Changing a result in any way has no effect on what the validator does later."""
    if any(k in repr(case) for k in ONCE):
        raise Skip
    schema = built(case)
    v = validator(schema, case)
    n = lib.MI.calls
    got = run(v, case, mk(case['value']))
    try:
        before = copy.deepcopy(got)
    except (TypeError, NotImplementedError):
        raise Skip from None
    if not same(before, got):
        raise Skip  # not comparable
    shared = {id(y) for d in defaults_in(schema) if not copied(d) for y in touch.reachable(d)}
    if any(id(x) in shared for x in touch.reachable(got[1]) if touch.mutable(x)):
        raise Skip  # defaults which are hashable aren't copied
    touch.spoil(got[1])
    again = run(v, case, mk(case['value']))
    ensure(same(again, before) or unordered(case), 'another outcome after the result has been changed', again, before)
    default = attempt(v.get_default_value)
    if default[0] == 'ok' and default[1] is not None and not any(id(x) in shared for x in touch.reachable(default[1].value)):
        try:
            before = copy.deepcopy(default[1].value)
        except (TypeError, NotImplementedError):
            raise Skip from None
        touch.spoil(default[1].value)
        again = v.get_default_value().value
        ensure(same(again, before) or unordered(case), 'another default after the default has been changed', again, before)
    rec.label(case['mode'], got[0])
    rec.nontrivial(got[0] == 'ok' and any(map(touch.mutable, touch.reachable(got[1]))))


def unordered(case):
    return 'set' in repr(case) or 'nan' in repr(case)


def check_errors(case, rec):
    """Changing what errors() gives has no effect on later reports of this or other errors."""
    v = validator(built(case), case)
    value = mk(case['value'])

    def errors():
        try:
            v.validate_python(value, **kwargs(case))
        except ValidationError as e:
            return e
        except ENDS:
            raise Skip from None
        raise Skip

    if any(k in repr(case) for k in ONCE):
        raise Skip
    e = errors()
    first = e.errors()
    text = str(e), e.json(include_input=False)
    for d in first:
        d['loc'] = ()
        for c in d.get('ctx', {}).values():
            if touch.mutable(c):
                raise Skip  # an object of the user
        d.get('ctx', {}).clear()
        d.clear()
    first.clear()
    for other in (e, errors()):
        ensure((str(other), other.json(include_input=False)) == text or unordered(case), 'another report after errors() was changed', str(other), text[0])
        ensure(len(other.errors()) == e.error_count() or unordered(case), 'errors are gone', other.errors())
    rec.label(e.errors()[0]['type'])
    rec.nontrivial(any('ctx' in d for d in e.errors()))


def errors_case(s):
    case = everything.case_of('python', 2, (60,))(s)
    if chance(s, 1, 3):
        case['schema'] = {'type': 'custom-error', 'schema': case['schema'], 'custom_error_type': 'mine', 'custom_error_message': 'x {a}', 'custom_error_context': {'a': pick(s, [1, 'b'])}}
    return case


# ------------------------------------------------------------------------------------------------ schemas that copy all
CLOSED = {'int', 'str', 'float', 'bool', 'bytes', 'date', 'decimal', 'uuid', 'none', 'literal', 'list', 'set', 'tuple', 'frozenset', 'dict', 'nullable', 'default', 'typed-dict',
          'typed-dict-field', 'model', 'model-fields', 'model-field', 'dataclass', 'dataclass-args', 'dataclass-field', 'union', 'tagged-union', 'definitions', 'definition-ref', 'time',
          'datetime', 'timedelta', 'complex', 'json', 'chain', 'lax-or-strict', 'url', 'multi-host-url', 'json-or-python', 'computed-field'}


def closed(schema):
    """Whether the schema makes all containers anew; instances are given through unless they are revalidated."""
    if isinstance(schema, X):
        return True
    if isinstance(schema, (list, tuple)):
        return all(map(closed, schema))
    if not isinstance(schema, dict):
        return True
    t = schema.get('type')
    if isinstance(t, str) and t not in CLOSED:
        return False
    if t == 'list' and 'items_schema' not in schema or t == 'dict' and ('values_schema' not in schema or 'keys_schema' not in schema):
        return False
    return all(closed(x) for k, x in schema.items() if k not in ('default', 'expected', 'metadata', 'serialization', 'config', 'type'))


def closed_tree(s, mode, depth):
    k = s.draw(16)
    if depth <= 0 or k < 2:
        return specs.leaf_spec(s)
    if k < 8:
        return pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])(s, mode, depth, closed_tree)
    if k == 8:
        return unions.union_spec(s, mode, depth, closed_tree)
    if k == 9:
        return unions.tagged_spec(s, mode, depth, closed_tree)
    sub = closed_tree(s, mode, depth - 1)
    kind = pick(s, ['list', 'dict', 'tuple', 'set', 'frozenset', 'nullable', 'default', 'default', 'list', 'dict'])
    if kind == 'dict':
        return {'type': 'dict', 'keys_schema': specs.leaf_spec(s), 'values_schema': sub}
    if kind == 'tuple':
        return {'type': 'tuple', 'items_schema': [sub, specs.leaf_spec(s)], **({'variadic_item_index': s.draw(2)} if s.draw(2) else {})}
    if kind == 'nullable':
        return {'type': 'nullable', 'schema': sub}
    if kind == 'default':
        return functions.default_spec(s, mode, depth, lambda *_: sub)
    return {'type': kind, 'items_schema': sub}


def revalidating(schema):
    if isinstance(schema, dict):
        if isinstance(schema.get('type'), str) and schema['type'] in ('model', 'dataclass'):
            schema = {**schema, 'revalidate_instances': 'always'}
        return {k: revalidating(x) if k != 'default' else x for k, x in schema.items()}
    if isinstance(schema, list):
        return list(map(revalidating, schema))
    if isinstance(schema, tuple) and not isinstance(schema, X):
        return tuple(map(revalidating, schema))
    return schema


def fresh_case(s):
    mode = pick(s, ['python', 'python', 'python', 'json'])
    spec = closed_tree(s, mode, 1 + s.draw(3))
    again = bool(s.draw(2))
    case = {'schema': revalidating(spec) if again else spec, 'mode': mode, 'revalidate': again}
    case['value'] = specs.value_for(s, spec, mode, pick(s, (0, 0, 8)))
    if mode == 'json':
        case['value'] = everything.as_json(s, case['value'])
    return case


def defaults_in(schema):
    if isinstance(schema, dict):
        return ([schema['default']] if 'default' in schema else []) + [x for k, y in schema.items() if k != 'default' for x in defaults_in(y)]
    if isinstance(schema, (list, tuple)):
        return [x for y in schema for x in defaults_in(y)]
    return []


def check_fresh(case, rec):
    """Where nothing is passed through, no mutable object of the result is one of the input, of a default or of another result."""
    if not closed(case['schema']) or "'allow'" in repr(case['schema']) or any(k in repr(case) for k in ONCE):
        raise Skip
    schema = built(case)
    v = validator(schema, case)
    value = mk(case['value'])
    got = run(v, case, value)
    rec.label(case['schema']['type'], got[0], 'revalidated' if case['revalidate'] else 'kept')
    if got[0] != 'ok':
        return
    instances = () if case['revalidate'] else (lib.ModelBase, lib.DcBase)
    theirs = touch.reachable(value)
    kept = {id(x) for x in theirs if isinstance(x, instances)} if instances else set()
    foreign = {id(x): x for x in theirs if touch.mutable(x)}
    for d in defaults_in(schema):
        if copied(d):
            foreign.update((id(x), x) for x in touch.reachable(d) if touch.mutable(x))
        else:
            kept.update(map(id, touch.reachable(d)))
    mine = [x for x in touch.reachable(got[1], lambda x: id(x) in kept) if touch.mutable(x)]
    rec.nontrivial(bool(mine))
    for x in mine:
        ensure(id(x) not in foreign, 'the result shares a mutable object with the input or a default', x, type(x).__name__)
    ids = set(map(id, mine))
    again = run(v, case, value)
    if again[0] == 'ok':
        for x in touch.reachable(again[1], lambda x: id(x) in kept):
            ensure(not touch.mutable(x) or id(x) not in ids, 'two results share a mutable object', x)


def copied(d):
    try:
        hash(d)
    except TypeError:
        return True
    return False


# --------------------------------------------------------------------------------------------------------- serialization
def ser_case(s):
    case = everything.case_of('python', 3, (0, 0, 8))(s)
    case['dump'] = {k: pick(s, [True, False]) for k in (pick(s, ['by_alias', 'exclude_unset', 'exclude_none', 'round_trip', 'serialize_as_any']) for _ in range(s.draw(3)))}
    case['any'] = chance(s, 1, 3)
    return case


def check_ser(case, rec):
    """What to_python gives shares no list, dict or set with the value."""
    if any(k in repr(case) for k in (*ONCE, "X('sf'", "'function-", "'call'", 'computed')):
        raise Skip
    schema = {'type': 'any'} if case['any'] else built(case)
    try:
        s = SchemaSerializer(schema)
        v = SchemaValidator(built(case), case.get('config'))
    except SchemaError:
        raise Skip from None
    got = attempt(v.validate_python, mk(case['value']))
    value = got[1] if got[0] == 'ok' else mk(case['value'])
    for mode in ('python', 'json'):
        out = attempt(s.to_python, value, mode=mode, warnings=False, **case['dump'])
        if out[0] != 'ok':
            rec.label('error')
            continue
        opaque = lambda x: not isinstance(x, (list, dict, set, tuple, frozenset))  # noqa: E731
        foreign = {id(x) for x in touch.reachable(value) if isinstance(x, (list, dict, set))}
        mine = [x for x in touch.reachable(out[1], opaque) if isinstance(x, (list, dict, set))]
        for x in mine:
            ensure(id(x) not in foreign, 'the dump shares an object with the value', x, mode)
        rec.nontrivial(bool(mine))
        rec.label(mode)


# ------------------------------------------------------------------------------------------------------------- assignment
def assign_case(s):
    kind = pick(s, [fields.model_spec, fields.dataclass_spec, fields.typed_dict_spec])
    spec = kind(s, 'python', 2, closed_tree if s.draw(2) else everything.tree)
    value = specs.value_for(s, spec, 'python', 0)
    names = lib_names(spec)
    return {'schema': spec, 'mode': 'python', 'value': value, 'field': pick(s, [*names, 'zz']), 'new': specs.value_for(s, pick(s, field_schemas(spec) or [{'type': 'int'}]), 'python', pick(s, (0, 30))),
            'inner': bool(s.draw(2))}


def inner_of(spec):
    while spec['type'] not in ('model-fields', 'dataclass-args', 'typed-dict') and isinstance(spec.get('schema'), dict):
        spec = spec['schema']
    return spec


def lib_names(spec):
    f = inner_of(spec).get('fields', {})
    return list(f) if isinstance(f, dict) else [x['name'] for x in f if isinstance(x, dict)]


def field_schemas(spec):
    f = inner_of(spec).get('fields', {})
    return [x['schema'] for x in (f.values() if isinstance(f, dict) else f) if isinstance(x, dict)]


def check_assign(case, rec):
    """A failed assignment leaves everything as it was; another one changes nothing but the instance itself."""
    if any(k in repr(case) for k in (*ONCE, "X('vf'", 'post_init', "'custom_init'", "X('cf'", "'MI'", "'D3'")):
        raise Skip
    spec = case['schema']
    dicts = case['inner'] or spec['type'] == 'typed-dict'
    v = validator(compose.build(spec), case)
    got = attempt(v.validate_python, mk(case['value']))
    if got[0] != 'ok':
        raise Skip
    obj = got[1]
    if dicts and spec['type'] in ('model', 'dataclass'):
        if not hasattr(obj, '__dict__'):
            raise Skip
        v = validator(compose.build(inner_of(spec)), case)
        obj = dict(obj.__dict__)
    new = mk(case['new'])
    snap = touch.snapshot(obj, new)
    done = attempt(v.validate_assignment, obj, case['field'], new)
    rec.label(spec['type'], done[0], 'dict' if dicts else 'instance')
    rec.nontrivial()
    if done[0] != 'ok':
        x = touch.changed(snap)
        ensure(x is None, 'the failed assignment changed', x, done)
        return
    mine = {id(y) for y in (obj, getattr(obj, '__dict__', None), getattr(obj, '__pydantic_fields_set__', None), getattr(obj, '__pydantic_extra__', None))}
    x = touch.changed([(y, before) for y, before in snap if id(y) not in mine])
    ensure(x is None, 'the assignment changed more than the instance', x)
    if not dicts:
        ensure(done[1] is obj, 'another object', done[1])


TESTS = [
    Test('untouched', lambda: st.Strategy(untouched_case), check_untouched, 30000, 700000),
    Test('again', lambda: st.Strategy(again_case), check_again, 40000, 900000),
    Test('errors', lambda: st.Strategy(errors_case), check_errors, 16000, 300000),
    Test('fresh', lambda: st.Strategy(fresh_case), check_fresh, 60000, 1200000),
    Test('dump', lambda: st.Strategy(ser_case), check_ser, 24000, 500000),
    Test('assign', lambda: st.Strategy(assign_case), check_assign, 24000, 500000),
]
